// G02 subsets in GridFS.
#include "store.hpp"
#include "raster/subs.hpp"

namespace {
template <class T, class M>
struct SubWorld : Store {
    typedef clsRasterData<T, M> R;
    Pieces<T, M> p;
    std::unique_ptr<R> r;
    int outs = 0, back = 0;
    SubWorld(Ctx& ctx) : Store(ctx), p(ctx) {}

    double round_to(const DType& t, double x) { return t.integral ? std::trunc(x) : x; }
    // the metadata and data of an output
    Doc doc(const string& name, const STRING_MAP& opts, int rows, int cols, double xll, double yll, int lyrs, const vector<vector<double> >& v) {
        Doc d;
        d.name = name;
        for (auto& x : opts) d.meta[x.first] = value_of(x.second);
        d.meta["NROWS"] = number(rows); d.meta["NCOLS"] = number(cols); d.meta["LAYERS"] = number(lyrs);
        d.meta["CELLSNUM"] = number((double)v[0].size());
        d.meta["XLLCENTER"] = number(xll); d.meta["YLLCENTER"] = number(yll); d.meta["CELLSIZE"] = number(p.g.dx);
        d.meta["NODATA_VALUE"] = number((double)p.g.nodata);
        const DType& t = *by_name(opts.at("DATATYPE_OUT"));
        for (size_t i = 0; i < v[0].size(); i++) for (int l = 0; l < lyrs; l++) d.bytes += t.bytes(round_to(t, v[l][i]));
        return d;
    }
    void output() {
        const Grid<T>& g = p.g;
        bool origin = c.coin(), comb = c.coin(), inc = c.coin();
        Recls m;
        int mlyrs = 0;
        bool inconsistent = false, unusable = false, any = false, data = true, mixed = false;
        int dl = -1;
        for (auto& s : p.subs) {
            if (!s.second.usable) { unusable = true; continue; }
            any = true;
            if (s.second.lyrs < 0) data = false;
            if (dl < 0) dl = s.second.decl; else if (dl != s.second.decl) mixed = true;
        }
        if (c.chance(35) && !(comb && unusable)) {
            mlyrs = (int)c.range(1, 3);
            if (origin && g.lyrs > 1 && mlyrs > g.lyrs && c.chance(80)) mlyrs = g.lyrs;
            if (!origin && dl > 0) mlyrs = dl;
            for (int k = 0; k < 8; k++) if (c.coin()) { vector<double> v(mlyrs); for (auto& x : v) x = (double)c.range(50, 90); m[k] = v; }
            if (m.size() > 1 && c.chance(10)) { m.begin()->second.push_back(1); inconsistent = true; }
        }
        if (!origin && !m.empty() && mixed) m.clear();
        if (m.empty()) inconsistent = false;
        else if (origin && g.lyrs > 1 && mlyrs > g.lyrs) inconsistent = true;
        double def = c.chance(30) ? (double)c.range(100, 120) : -9999, use = def == -9999 ? r->GetDefaultValue() : def;
        bool plain = !origin && comb && m.empty() && def == -9999 && c.coin();  // by OutputToMongoDB
        string name = c.pick({string("pieces"), string("dem")});
        bool empty_name = c.chance(10);
        if (empty_name) r->SetCoreName(name);
        STRING_MAP opts;
        if (c.chance(30)) opts["YEAR"] = c.pick({string("1999"), string("2000"), string("wet")});
        STRING_MAP want = r->GetOptions();
        auto fits = [&](const DType* t) { return t && (!t->integral || (holds(*t, (double)g.nodata) && (double)g.nodata == std::trunc((double)g.nodata) && holds(*t, use))); };
        if (c.chance(40)) opts["DATATYPE_OUT"] = dtypes[c.below(10)].name;
        for (auto& x : opts) want[x.first] = x.second;
        if (!fits(by_name(want["DATATYPE_OUT"]))) {
            if (by_name(want["DATATYPE_OUT"])) opts["DATATYPE_OUT"] = want["DATATYPE_OUT"] = own<T>().name;
            else want["DATATYPE_OUT"] = own<T>().name;
        }
        want["INCLUDE_NODATA"] = inc ? "TRUE" : "FALSE";
        // what is to be stored
        vector<Doc> out;
        bool ok = true, skipped = false;
        if (comb) {
            int lyrs = origin ? m.empty() ? g.lyrs : mlyrs : dl > 0 ? dl : mlyrs > 0 && !m.empty() ? mlyrs : -1;
            ok = !inconsistent && (origin || ((data || !m.empty()) && !mixed && lyrs > 0));
            if (ok) {
                vector<vector<double> > v(lyrs, vector<double>(g.cells(), (double)g.nodata));
                for (auto& s : p.subs) for (size_t i = 0; i < s.second.cells.size(); i++) for (int l = 0; l < lyrs; l++) {
                    double& x = v[l][s.second.cells[i]];
                    if (s.second.usable) x = p.value(s.second, s.first, (int)i, l, origin, m, use);
                    else if (use != (double)g.nodata) x = (double)(T)use;
                }
                if (!inc && p.pos) for (auto& l : v) { vector<double> k; for (int cell : p.stored) k.push_back(l[cell]); l = k; }
                out.push_back(doc("0_" + name, want, g.rows, g.cols, g.xll, g.yll, lyrs, v));
            }
        } else for (auto& s : p.subs) {
            const Sub& w = s.second;
            if (!w.usable) continue;
            int lyrs = origin ? m.empty() ? g.lyrs : mlyrs : w.decl > 0 ? w.decl : m.empty() ? -1 : mlyrs;
            if (inconsistent || lyrs < 0 || (!origin && m.empty() && w.lyrs < 0)) { skipped = true; continue; }
            vector<vector<double> > v(lyrs, vector<double>(inc ? w.rows() * w.cols() : (int)w.cells.size(), (double)g.nodata));
            for (int l = 0; l < lyrs; l++) for (size_t i = 0; i < w.cells.size(); i++)
                v[l][inc ? (w.cells[i] / g.cols - w.r0) * w.cols() + w.cells[i] % g.cols - w.c0 : (int)i] = p.value(w, s.first, (int)i, l, origin, m, use);
            out.push_back(doc(format("%d_", s.first) + name, want, w.rows(), w.cols(), g.x(w.c0), g.y(w.r1), lyrs, v));
        }
        int fault = c.chance(20) ? (int)c.range(1, 4) : 0;
        c.note() << (origin ? " original" : " data") << (comb ? " combined" : " separate") << (inc ? "" : " valid only") << (m.empty() ? "" : format(" %d classes of %d layers", (int)m.size(), mlyrs)) << " default " << def
                 << " as " << name << " " << options_text(opts) << (fault ? format("fault %d", fault) : "") << ";";
        size_t bad = 0, gone_all = 0;
        for (size_t k = 0; k < out.size(); k++) {
            vector<Doc> rest;
            size_t gone = replace(out[k].name, want, rest);
            gone_all += gone;
            // 2: the first cannot be written, 3: none can, 4: former ones cannot be removed
            bool lost = fault == 3 || (fault == 2 && k == 0), kept = fault == 4 && gone;
            if (!kept) docs = rest;
            if (!lost && !kept) docs.push_back(out[k]); else bad++;
        }
        if (fault == 1) { if (c.coin()) fake::server.fail_write = (int)c.range(1, 3); else fake::server.fail_save = (int)c.range(1, 3); }
        if (fault == 2) fake::server.fail_write = 4;
        if (fault == 3) fake::server.fail_write = 1000;
        if (fault == 4) fake::server.fail_remove = 1000;
        bool got = plain ? r->OutputToMongoDB(gfs.get(), empty_name ? "" : name, opts, inc, false)
                         : r->OutputSubsetToMongoDB(gfs.get(), empty_name ? "" : name, opts, inc, origin, comb, m, def);
        fake::server.fail_write = fake::server.fail_save = fake::server.fail_remove = 0;
        if (!skipped) c.eq(got, ok && !bad, "result of output");
        else if (bad) c.check(!got, "output succeeded although a subset is not stored");
        c.check(r->GetOptions() == want, "options after output: " + options_text(r->GetOptions()) + "expected " + options_text(want));
        outs += out.size() - bad;
        c.label(string(origin ? "original" : "data") + (comb ? ", combined" : ", separate") + (m.empty() ? "" : ", reclassified") + (inc ? "" : ", valid only") + (out.empty() ? ", refused" : fault > 1 ? ", fault" : ""));
    }
    void verify_data() {
        for (auto& s : p.subs) {
            dr::SubsetPositions* q = r->GetSubset()[s.first];
            const Sub& w = s.second;
            if (w.lyrs < 1) continue;
            c.eq(q->n_lyrs, w.lyrs, format("layers of subset %d", s.first));
            c.check(w.lyrs == 1 ? q->data_ != nullptr : q->data2d_ != nullptr, format("data of subset %d", s.first));
            for (int l = 0; l < w.lyrs; l++) for (size_t i = 0; i < w.cells.size(); i++)
                c.eq(w.lyrs == 1 ? q->data_[i] : q->data2d_[i][l], w.data[l][i], format("value %d of layer %d of subset %d", (int)i, l + 1, s.first));
        }
    }
    // data of a subset from the store
    void read() {
        auto s = p.subs.begin();
        std::advance(s, c.below(p.subs.size()));
        Sub& w = s->second;
        string name = format("%d_pieces", s->first);
        STRING_MAP opts;
        if (!docs.empty() && c.chance(90)) {
            const Doc* d = &docs[c.below(docs.size())];
            string own_prefix = format("%d_", s->first);
            if (c.chance(70)) for (auto& e : docs) if (e.name.substr(0, own_prefix.size()) == own_prefix && (d->name.substr(0, own_prefix.size()) != own_prefix || c.coin())) d = &e;
            name = d->name;
            for (auto& x : d->meta) if (!is_header(x.first) && c.chance(x.first == "INCLUDE_NODATA" ? 60 : 25)) opts[x.first] = x.second.number ? format("%.0f", x.second.x) : x.second.s;
        }
        const Doc* d = find(name, opts);
        bool fault = c.chance(8);
        bool ok = d && !fault;
        if (ok) {
            const DType* t = by_name(d->text("DATATYPE_OUT"));
            int n = (int)d->num("CELLSNUM"), lyrs = (int)d->num("LAYERS");
            bool full = n == w.rows() * w.cols(), valid = n == (int)w.cells.size();
            ok = t && n > 0 && lyrs > 0 && d->bytes.size() == (size_t)n * lyrs * t->size && (full || valid);
            if (ok) {
                w.data.assign(lyrs, vector<double>(w.cells.size()));
                for (int l = 0; l < lyrs; l++) for (size_t i = 0; i < w.cells.size(); i++) {
                    int k = valid ? (int)i : (w.cells[i] / p.g.cols - w.r0) * w.cols() + w.cells[i] % p.g.cols - w.c0;
                    w.data[l][i] = t->number(&d->bytes[((size_t)k * lyrs + l) * t->size]);
                }
                w.lyrs = w.decl = lyrs;
                w.usable = true;
                c.label(valid ? full ? "read" : "read valid" : "read full");
                back++;
            }
        }
        c.note() << " read " << name << " " << options_text(opts) << "to subset " << s->first << (fault ? " fault;" : ";");
        if (fault) fake::server.fail_read = 1;
        c.eq(r->GetSubset()[s->first]->ReadFromMongoDB(gfs.get(), name, opts), ok, "result of reading data of a subset");
        fake::server.fail_read = 0;
        if (!ok) c.label("read, refused");
    }
    // a raster that needs not be stored: as an array, or read from the store with a mask that has subsets
    std::unique_ptr<clsRasterData<M> > mask;
    bool start() {
        if (c.chance(65)) {
            p.g = grid<T>(c, 3, 8);
            if (c.chance(70)) { p.g.rows = (int)c.range(2, 6); p.g.cols = (int)c.range(2, 6); fill(c, p.g, 0); }
            classes(c, p.g, (int)c.pick({0, 20, 40, 80}));
            r = make_raster<T, M>(p.g, p.g.lyrs > 1 || c.chance(20), STRING_MAP());
            p.r = r.get();
            drop_invalid(p.g);
            p.pos = true;
            p.stored = valid_cells(p.g);
            if (p.stored.empty()) return false;
            std::map<int, int> groups = some_groups(c);
            p.subs = partition(p.g, groups);
            c.note() << p.g.str() << sub_str(p.subs) << ";";
            c.eq(r->BuildSubSet(groups), true, "building subsets");
        } else {
            Grid<M> m = grid<M>(c, 1, 6);
            m.v.assign(1, vector<M>(m.cells()));
            classes(c, m, (int)c.pick({0, 20, 40}));
            if (valid_cells(m).empty()) return false;
            mask = make_raster(m, false);
            std::map<int, int> groups = some_groups(c);
            mask->BuildSubSet(groups);
            std::map<int, Sub> msubs = partition(m, groups);
            if (c.chance(30)) { Pieces<M> pm(c); pm.g = m; pm.pos = true; pm.stored = valid_cells(m); pm.subs = msubs; pm.r = mask.get(); pm.set_data((int)c.range(1, 2)); msubs = pm.subs; c.note() << "data of " << msubs.begin()->second.lyrs << " layers; "; }
            Grid<T> f;
            f.dx = m.dx; f.nodata = pick_nodata<T>(c); f.lyrs = (int)c.range(1, 3);
            if (c.coin()) { f.rows = m.rows; f.cols = m.cols; f.xll = m.xll; f.yll = m.yll; }
            else { f.rows = (int)c.range(1, 6); f.cols = (int)c.range(1, 6); f.xll = m.xll + m.dx * (double)c.range(-3, 5); f.yll = m.yll + m.dx * (double)c.range(-3, 5); }
            f.v.assign(f.lyrs, vector<T>(f.cells()));
            classes(c, f, (int)c.pick({0, 20, 50}));
            auto src = make_raster<T, M>(f, f.lyrs > 1, STRING_MAP());
            c.check(src->OutputToMongoDB(gfs.get(), "source"), "storing a raster");
            src.reset();
            auto& files = fake::server.files("model", "SPATIAL");
            bool calc = c.coin(), ext = c.coin();
            c.note() << "mask " << m.str() << sub_str(msubs) << "; " << f.str() << (calc ? " calc_pos" : "") << (ext ? " use_mask_ext" : "") << ";";
            r.reset(R::Init(gfs.get(), "source", calc, mask.get(), ext));
            for (auto f : files) { if (f->has_meta) bson_destroy(&f->meta); delete f; }
            files.clear();
            if (!r) { c.label("refused"); return false; }
            std::set<int> seen;
            observe(c, *r, m, msubs, p, seen);
            if (p.subs.empty()) return false;
            c.label("inherited");
        }
        if (c.coin()) r->SetDefaultValue((double)p.g.nodata);
        return true;
    }
    void run() {
        bool any = start();
        if (any) {
            p.verify("the raster");
            size_t n = c.len(3, 12);
            if (c.coin()) { int lyrs = (int)c.range(1, 3); c.note() << " data of " << lyrs << " layers;"; p.set_data(lyrs); }
            for (size_t k = 0; k < n; k++) {
                switch (c.weighted({5, 3, 4, 1, 1})) {
                case 0: output(); break;
                case 1: {
                    int lyrs = (int)c.range(1, 3);
                    c.note() << " data of " << lyrs << " layers;";
                    p.set_data(lyrs);
                    break;
                }
                case 2: read(); break;
                case 3: for (auto& s : p.subs) if (c.chance(30)) { s.second.usable = !s.second.usable; r->GetSubset()[s.first]->usable = s.second.usable; c.note() << (s.second.usable ? " usable " : " unusable ") << s.first << ";"; } break;
                default: {
                    auto s = p.subs.begin();
                    std::advance(s, c.below(p.subs.size()));
                    int cell = c.pick(s->second.cells), l = (int)c.below((uint64_t)p.g.lyrs);
                    T x = (T)c.range(0, 6);
                    if (x == p.g.nodata) break;
                    r->SetValue(cell / p.g.cols, cell % p.g.cols, x, l + 1);
                    p.g.v[l][cell] = x;
                }
                }
                p.verify("the raster");
                verify_data();
                verify_store();
            }
            p.unchanged("the raster after all");
            if (outs > 1 && back) c.nontrivial();
        }
        r.reset();
        mask.reset();
        close();
        if (!any) c.discard();
    }
};
void g02(Ctx& c) {
    switch (c.below(4)) {
    case 0: SubWorld<float, int32_t>(c).run(); break;
    case 1: SubWorld<int32_t, int32_t>(c).run(); break;
    case 2: SubWorld<double, float>(c).run(); break;
    default: SubWorld<int16_t, int16_t>(c).run(); break;
    }
}
PBT_STATIC([] {
    auto& p = add("G02", 30000, 500000, "two or more pieces are stored and data of a subset is read from the store", g02);
    p.assumptions = {"The MongoDB driver is replaced by an in-process stand-in with its documented behaviour.", "Values, default value and NoData are within the range of the chosen data type."};
});
}  // namespace
