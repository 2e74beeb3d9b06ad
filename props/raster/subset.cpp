// R10 subsets: partition, data, output in pieces and combined, and subsets inherited from a mask.
#include "subs.hpp"

namespace {
template <class T>
void own(Ctx& c) {
    Pieces<T> p(c);
    p.g = grid<T>(c, 3, 8);
    if (c.chance(70)) { p.g.rows = (int)c.range(2, 8); p.g.cols = (int)c.range(2, 8); fill(c, p.g, 0); }
    classes(c, p.g, (int)c.pick({0, 20, 40, 80}));
    bool two_d = p.g.lyrs > 1 || c.chance(20);
    auto r = make_raster(p.g, two_d);
    p.r = r.get();
    if (c.coin()) r->SetCalcPositions();
    drop_invalid(p.g);
    p.pos = true;
    p.stored = valid_cells(p.g);
    if (p.stored.empty()) c.discard();
    if (c.coin()) r->SetDefaultValue((double)p.g.nodata);
    std::map<int, int> groups = some_groups(c);
    p.subs = partition(p.g, groups);
    c.note() << p.g.str() << (two_d ? " 2D" : " 1D") << " groups{";
    for (auto& x : groups) c.note() << x.first << ">" << x.second << " ";
    c.note() << "}" << sub_str(p.subs);
    c.eq(r->BuildSubSet(groups), true, "building subsets");
    p.verify("the raster");
    p.unchanged("the raster with subsets");
    size_t n = c.len(1, 4);
    for (size_t k = 0; k < n; k++) {
        switch (c.weighted({4, 3, 1, 1, 1})) {
            case 0: p.output(); break;
            case 1: {
                int lyrs = (int)c.range(1, 3);
                c.note() << " data of " << lyrs << " layers;";
                p.set_data(lyrs);
                break;
            }
            case 2: {
                bool re = c.coin();
                groups = some_groups(c);
                c.note() << (re ? " rebuild;" : " build again;");
                c.eq(re ? r->RebuildSubSet(groups) : r->BuildSubSet(groups), true, "building subsets again");
                if (re) p.subs = partition(p.g, groups);
                break;
            }
            case 3:
                for (auto& s : p.subs)
                    if (c.chance(30)) { s.second.usable = !s.second.usable; r->GetSubset()[s.first]->usable = s.second.usable; c.note() << (s.second.usable ? " usable " : " unusable ") << s.first << ";"; }
                break;
            default: {  // copies of a subset
                auto& x = *r->GetSubset().begin();
                bool deep = c.coin();
                dr::SubsetPositions* copy = new dr::SubsetPositions(x.second, deep);
                const Sub& w = p.subs.begin()->second;
                c.eq(copy->n_cells, (int)w.cells.size(), "cells of a copied subset");
                for (int i = 0; i < copy->n_cells; i++) {
                    c.eq(copy->global_[i], p.index(w.cells[i]), "position in a copied subset");
                    if (w.lyrs == 1 && copy->data_) c.eq(copy->data_[i], w.data[0][i], "data in a copied subset");
                }
                if (copy->data_) copy->data_[0] += 1;
                if (deep) { copy->global_[0] += 1; copy->local_pos_[0][0] += 1; }
                delete copy;
            }
        }
        p.verify("the raster");
    }
    p.unchanged("the raster after all");
    c.eq(r->ReleaseSubset(), true, "releasing subsets");
    c.check(r->GetSubset().empty(), "subsets remain after release");
}

// subsets of a mask are taken over by the raster read with it
template <class T, class M>
void inherited(Ctx& c) {
    Grid<M> m = grid<M>(c, 1, 8);
    m.rows = (int)c.range(1, 8);
    m.cols = (int)c.range(1, 8);
    m.v.assign(1, vector<M>(m.cells()));
    classes(c, m, (int)c.pick({0, 20, 40}));
    if (valid_cells(m).empty()) c.discard();
    auto mask = make_raster(m, false);
    std::map<int, int> groups = some_groups(c);
    mask->BuildSubSet(groups);
    std::map<int, Sub> msubs = partition(m, groups);
    Pieces<M> pm(c);
    pm.g = m; pm.pos = true; pm.stored = valid_cells(m); pm.subs = msubs; pm.r = mask.get();
    if (c.chance(30)) { pm.set_data((int)c.range(1, 2)); msubs = pm.subs; }
    int n = (int)c.range(1, 2);
    vector<string> names;
    vector<Grid<T> > files;
    for (int l = 0; l < n; l++) {
        Grid<T> f;
        f.dx = m.dx; f.nodata = l ? files[0].nodata : pick_nodata<T>(c);
        if (c.coin() || l) { f.rows = l ? files[0].rows : m.rows; f.cols = l ? files[0].cols : m.cols; f.xll = l ? files[0].xll : m.xll; f.yll = l ? files[0].yll : m.yll; }
        else {
            f.rows = (int)c.range(1, 8); f.cols = (int)c.range(1, 8);
            f.xll = m.xll + m.dx * (double)c.range(-3, 5); f.yll = m.yll + m.dx * (double)c.range(-3, 5);
        }
        f.v.assign(1, vector<T>(f.cells()));
        classes(c, f, (int)c.pick({0, 20, 50}));
        files.push_back(f);
        names.push_back(write_layer(c, c.dir() + format("/lyr_%d", l + 1), f, 0, 10));
    }
    bool calc = c.coin(), ext = c.coin();
    c.note() << "mask " << m.str() << sub_str(msubs) << "; ";
    for (auto& f : files) c.note() << f.str() << " ";
    c.note() << (calc ? "calc_pos " : "") << (ext ? "use_mask_ext " : "");
    std::unique_ptr<clsRasterData<T, M> > r;
    if (n == 1) r.reset(clsRasterData<T, M>::Init(names[0], calc, mask.get(), ext));
    else r.reset(clsRasterData<T, M>::Init(names, calc, mask.get(), ext));
    pm.verify("the mask");
    if (!r) { c.label("refused"); return; }
    if (c.chance(30)) {
        if (c.coin()) { c.note() << "SetCalcPositions "; r->SetCalcPositions(); }
        else { c.note() << "SetUseMaskExt "; r->SetUseMaskExt(); }
        pm.verify("the mask");
    }
    Pieces<T, M> p(c);
    std::set<int> seen;
    observe(c, *r, m, msubs, p, seen);
    p.verify("the masked raster");
    c.label(p.subs.empty() ? "inherited nothing" : "inherited");
    if (p.subs.empty()) return;
    r->SetDefaultValue((double)p.g.nodata);
    if (c.coin()) {
        // original data, combined: exactly the cells of the subsets
        string dir = c.dir() + "/o";
        mkdir(dir.c_str(), 0755);
        c.eq(r->OutputSubsetToFile(true, true, dir + "/core.asc"), true, "output of inherited subsets");
        for (int l = 0; l < p.g.lyrs; l++) {
            File f;
            f.rows = p.g.rows; f.cols = p.g.cols; f.dx = p.g.dx; f.xll = p.g.xll; f.yll = p.g.yll; f.nodata = (double)p.g.nodata;
            f.v.assign(p.g.cells(), f.nodata);
            for (int i : seen) f.v[i] = (double)p.g.v[l][i];
            same_file(c, dir + (p.g.lyrs > 1 ? format("/0_core_%d.asc", l + 1) : "/0_core.asc"), f);
        }
        if (seen.size() > 1) c.nontrivial();
    } else {
        size_t k = c.len(1, 3);
        for (size_t i = 0; i < k; i++) {
            if (c.coin()) { p.set_data((int)c.range(1, 2)); p.verify("the masked raster with data"); }
            else p.output();
        }
    }
    p.unchanged("the masked raster after all");
    pm.verify("the mask");
}
void prop_subsets(Ctx& c) {
    if (c.chance(60)) {
        switch (c.below(4)) {
            case 0: own<int32_t>(c); break;
            case 1: own<float>(c); break;
            case 2: own<int16_t>(c); break;
            default: own<double>(c); break;
        }
    } else {
        switch (c.below(3)) {
            case 0: inherited<float, int32_t>(c); break;
            case 1: inherited<int32_t, int32_t>(c); break;
            default: inherited<double, float>(c); break;
        }
    }
}

PBT_STATIC([] {
    auto& a = add("R10", 20000, 500000, "a raster of up to 8x8 cells of 7 classes and a history of grouping, giving data and output; or a raster read with a mask that has subsets; non-trivial when two or more subsets are written", prop_subsets);
    a.worker_init = gdal_init;
});
}  // namespace
