// X01 the raster program: masking, decomposing and combining files and GridFS data.
#include "store.hpp"
#include "raster/subs.hpp"
#include <omp.h>
#include <fstream>
#include <set>
#include <sstream>
#include <unistd.h>
int mask_rasterio_main(const int argc, const char** argv);

namespace {
typedef vector<string> Words;
int run_program(const Words& w) {
    vector<const char*> a = {"mask_rasterio"};
    for (auto& x : w) a.push_back(x.c_str());
    int n = (int)a.size();
    a.push_back(nullptr);
    int code = mask_rasterio_main(n, a.data());
    omp_set_num_threads(2);
    return code;
}
string num(double x) { return format("%.12g", x); }
struct Piece {  // what one output holds
    string name, type;
    bool plain = false;  // written as a raster, not as (combined) subsets
    double nodata = 0;
    int rows = 0, cols = 0;
    double xll = 0, yll = 0;
    vector<vector<double> > v;  // [layer][cell of the extent]
    vector<int> cells;          // of the extent, if only these are stored
};
struct Item {  // one input with its own settings
    Grid<double> f;
    Words names;                 // of the input
    string out = "o", target;    // name of the output, and with its path
    string type = "DOUBLE";
    double def = -9999, nd = 0;
    bool upd = false;
    Recls recls;
    string recl;
};
struct App : Store {
    Grid<double> m;
    bool unjudged = false, has_mask = true, in_gfs = false, out_gfs = false, mask_gfs = false, config = false;
    string dir, mask_name, ext, out;
    vector<Item> items;
    App(Ctx& ctx) : Store(ctx), dir(ctx.dir()) {}

    void put(const Grid<double>& g, const string& name, const string& t) {
        auto r = make_raster<double, double>(g, g.lyrs > 1, STRING_MAP());
        STRING_MAP o;
        o["DATATYPE_OUT"] = t;
        c.check(r->OutputToMongoDB(gfs.get(), name, o), "storing a raster");
    }
    const vector<double> nds = {-9999., -9999., -1., -99999., -32768.};
    Grid<double> source() {
        Grid<double> f;
        f.dx = m.dx; f.rows = m.rows; f.cols = m.cols; f.xll = m.xll; f.yll = m.yll;
        if (c.coin()) {
            f.rows = (int)c.range(1, 7); f.cols = (int)c.range(1, 7);
            f.xll += f.dx * (double)c.range(-4, 4) * 0.5; f.yll += f.dx * (double)c.range(-4, 4) * 0.5;
        }
        f.nodata = c.pick(nds);
        f.lyrs = c.chance(70) ? 1 : (int)c.range(2, 3);
        f.v.assign(f.lyrs, vector<double>(f.cells()));
        int holes = (int)c.pick({0, 20, 50, 90});
        for (int i = 0; i < f.cells(); i++) {
            bool no = c.chance(holes);
            for (auto& l : f.v) { l[i] = no ? f.nodata : (double)c.range(0, 7); if (!no && c.chance(15)) l[i] += 0.5; }
        }
        return f;
    }
    void inputs() {
        m.dx = c.pick({1., 0.5, 30.});
        m.xll = m.dx * (double)c.range(-8, 8) * 0.5; m.yll = m.dx * (double)c.range(-8, 8) * 0.5;
        m.rows = (int)c.range(1, 6); m.cols = (int)c.range(1, 6);
        m.nodata = c.pick(nds);
        m.v.assign(1, vector<double>(m.cells()));
        int holes = (int)c.pick({0, 20, 50});
        for (auto& x : m.v[0]) x = c.chance(holes) ? m.nodata : (double)c.range(0, 5);
        if (valid_cells(m).empty()) m.v[0][0] = 2;
        has_mask = !c.chance(15);
        in_gfs = c.chance(35);
        mask_gfs = c.chance(35);
        out_gfs = c.chance(35);
        config = c.chance(35) && in_gfs == out_gfs && in_gfs == mask_gfs;  // one format for all
    }
    void prepare() {
        if (mask_gfs) { put(m, "area", "DOUBLE"); mask_name = "area"; }
        else mask_name = write_layer(c, dir + "/area", m, 0);
        ext = c.chance(70) ? "asc" : "tif";
        out = dir + "/out";
        mkdir(out.c_str(), 0755);
        c.note() << (has_mask ? "mask " + m.str() : "");
    }
    void prepare(Item& t, int number) {
        if (in_gfs) { t.names = {format("source%d", number)}; put(t.f, t.names[0], t.type); }
        else for (int l = 0; l < t.f.lyrs; l++) t.names.push_back(write_layer(c, dir + format(t.f.lyrs > 1 ? "/src%d_%d" : "/src%d", number, l + 1), t.f, l));
        c.note() << " source " << t.f.str();
        name(t, number);
    }
    void name(Item& t, int number) {
        if (number) t.out = format("o%d", number);
        t.target = out_gfs ? t.out : out + "/" + t.out + "." + ext;
    }
    // the raster under the mask; false if they have nothing in common
    bool masked(const Item& t, Grid<double>& g) {
        const Grid<double>& f = t.f;
        if (!has_mask) { g = f; return true; }
        g = m;
        g.lyrs = f.lyrs;
        g.nodata = f.nodata;
        g.v.assign(g.lyrs, vector<double>(g.cells(), g.nodata));
        bool any = false;
        for (int k : valid_cells(m)) {
            int i, j;
            if (!f.locate(m.x(k % m.cols), m.y(k / m.cols), i, j)) continue;
            any = true;
            for (int l = 0; l < g.lyrs; l++) {
                double x = f.at(i, j, l);
                if (x == f.nodata && t.def != -9999) x = t.def;
                g.v[l][k] = x;
            }
        }
        return any;
    }
    std::map<int, Sub> groups_of(const Grid<double>& g) {
        std::map<int, Sub> s;
        for (int i = 0; i < g.cells(); i++) if (g.v[0][i] != g.nodata) s[(int)g.v[0][i]].add(i, g.cols);
        return s;
    }
    void check_out(const vector<Piece>& pieces, bool inc) {
        if (!out_gfs) {
            std::set<string> want;
            vector<std::pair<string, File> > should;
            for (auto& p : pieces) for (size_t l = 0; l < p.v.size(); l++) {
                File w;
                w.rows = p.rows; w.cols = p.cols; w.dx = m.dx; w.xll = p.xll; w.yll = p.yll; w.nodata = p.nodata; w.v = p.v[l];
                int number = (int)l + (p.plain && ext == "asc" ? 0 : 1);  // layers of an ASC raster count from 0
                string n = p.name + (p.v.size() > 1 ? format("_%d.", number) : ".") + ext;
                want.insert(n);
                if (ext == "tif" && p.type != "DOUBLE" && p.type != "FLOAT") for (auto& x : w.v) x = std::trunc(x);
                should.push_back({out + "/" + n, w});
            }
            std::ostringstream have, need;
            for (auto& x : names_in(out)) have << x << " ";
            for (auto& x : want) need << x << " ";
            c.eq(have.str(), need.str(), "files written");
            for (auto& x : should) same_file(c, x.first, x.second);
            return;
        }
        auto& v = fake::server.files("model", "SPATIAL");
        std::set<string> have, want;
        for (auto x : v) if (x->name.compare(0, 6, "source") != 0 && x->name != "area" && x->name.find("piece") == string::npos) c.check(have.insert(x->name).second, "file " + x->name + " stored twice");
        for (auto& p : pieces) {
            want.insert(p.name);
            fake::File* s = nullptr;
            for (auto x : v) if (x->name == p.name) s = x;
            c.check(s != nullptr, p.name + " is not stored");
            std::map<string, double> h;
            std::map<string, string> txt;
            bson_iter_t it;
            bson_iter_init(&it, &s->meta);
            while (bson_iter_next(&it)) {
                if (BSON_ITER_HOLDS_NUMBER(&it)) h[bson_iter_key(&it)] = BSON_ITER_HOLDS_DOUBLE(&it) ? bson_iter_double(&it) : (double)bson_iter_as_int64(&it);
                else if (BSON_ITER_HOLDS_UTF8(&it)) txt[bson_iter_key(&it)] = bson_iter_utf8(&it, nullptr);
            }
            int n = inc ? p.rows * p.cols : (int)p.cells.size(), lyrs = (int)p.v.size();
            double ww[] = {(double)p.rows, (double)p.cols, (double)lyrs, (double)n, p.xll, p.yll, m.dx, p.nodata};
            for (int k = 0; k < 8; k++) c.eq(h[header_keys[k]], ww[k], string(header_keys[k]) + " of stored " + p.name);
            c.eq(txt["INCLUDE_NODATA"], string(inc ? "TRUE" : "FALSE"), "INCLUDE_NODATA of stored " + p.name);
            c.eq(txt["DATATYPE_OUT"], p.type, "data type of stored " + p.name);
            const DType& d = *by_name(p.type);
            c.eq(s->data.size(), (size_t)n * lyrs * d.size, "size of stored " + p.name);
            for (int i = 0; i < n; i++) for (int l = 0; l < lyrs; l++) {
                double x = p.v[l][inc ? i : p.cells[i]];
                c.eq(d.number(&s->data[((size_t)i * lyrs + l) * d.size]), d.integral ? std::trunc(x) : x, format("cell %d of layer %d of stored ", i, l + 1) + p.name);
            }
        }
        std::ostringstream a, b;
        for (auto& x : have) a << x << " ";
        for (auto& x : want) b << x << " ";
        c.eq(a.str(), b.str(), "files stored");
    }
    void show(const Words& w) {
        for (string x : w) {
            for (size_t k; (k = x.find(dir)) != string::npos;) x.erase(k, dir.size() + 1);
            c.note() << (x.empty() ? "''" : x) << " ";
        }
    }
    // the words of a run, by command line or configuration file
    Words words(const string& mode, bool inc) {
        bool mongo = in_gfs || out_gfs || (has_mask && mask_gfs);
        vector<string> joined;
        for (auto& t : items) {
            joined.push_back("");
            for (auto& x : t.names) joined.back() += (joined.back().empty() ? "" : ",") + x;
        }
        vector<Words> keys;
        if (mode != "MASK" || c.coin()) keys.push_back({"-mode", mode == "MASKDEC" && c.coin() ? "MASK&DEC" : mode});
        if (mongo) keys.push_back({"-mongo", "127.0.0.1", "27017", "model", "SPATIAL"});
        if (has_mask) keys.push_back({"-mask", mask_gfs ? "gfs" : "file", mask_name});
        if (!inc || c.chance(20)) keys.push_back({"-include_nodata", inc ? "1" : "0"});
        if (c.chance(30)) keys.push_back({"-thread", num((double)c.range(1, 3))});
        Words w;
        if (!config) {
            Item& t = items[0];
            keys.push_back({"-in", in_gfs ? "gfs" : "file", joined[0]});
            keys.push_back({"-out", out_gfs ? "gfs" : "file", t.target});
            if (t.def != -9999) keys.push_back({"-default", num(t.def)});
            if (t.upd) keys.push_back({"-nodata", num(t.nd)});
            if (t.type != "DOUBLE" || c.coin()) keys.push_back({"-outdatatype", t.type});
            if (!t.recl.empty()) keys.push_back({"-reclass", t.recl});
            for (size_t i = keys.size(); i-- > 1;) std::swap(keys[i], keys[c.below(i + 1)]);
            for (auto& k : keys) w.insert(w.end(), k.begin(), k.end());
        } else {
            std::ofstream s(dir + "/run.txt");
            s << "# a run\n\n";
            if (c.coin()) keys.push_back({"-in", mongo ? "gfs" : "file"});  // otherwise decided by the items
            if (c.coin()) keys.push_back({"-out", mongo ? "gfs" : "file"});
            if (c.chance(30)) keys.push_back({"-outdatatype", c.pick({string("INT16"), string("FLOAT"), string("DOUBLE")})});  // for items without type
            string common_type = !keys.empty() && keys.back()[0] == "-outdatatype" ? keys.back()[1] : "DOUBLE";
            std::ostringstream lines;
            for (size_t k = 0; k < items.size(); k++) {
                Item& t = items[k];
                Words rest = {t.def != -9999 ? num(t.def) : "", t.upd ? num(t.nd) : "", t.type == common_type && c.coin() ? "" : t.type, t.recl};
                if (rest[2].empty()) while (!rest.empty() && rest.back().empty() && rest.size() != 3 && c.coin()) rest.pop_back();
                lines << joined[k] << ";" << t.target;
                for (auto& x : rest) lines << ";" << x;
                lines << "\n";
                if (c.chance(10)) lines << "\n# the next\n";
            }
            bool first = c.coin();
            if (first) s << lines.str();
            for (auto& k : keys) {
                if (k[0] == "-thread" || c.chance(20)) { w.insert(w.end(), k.begin(), k.end()); continue; }
                for (size_t i = 0; i < k.size(); i++) s << (i ? "\t" : "") << k[i];
                s << "\n";
            }
            if (!first) s << lines.str();
            s.close();
            c.note() << "\n" << lines.str();
            Words cf = {"-configfile", dir + "/run.txt"};
            if (w.empty() && c.coin()) cf.erase(cf.begin());  // a single configuration file
            w.insert(c.coin() ? w.begin() : w.end(), cf.begin(), cf.end());
        }
        c.note() << "\n   ";
        show(w);
        return w;
    }
    void settings(Item& t, bool com) {
        t.f = source();
        if (com) { t.f.lyrs = 1; t.f.v.resize(1); if (in_gfs) t.f.nodata = m.nodata; }
        if (c.chance(30)) t.def = c.pick({100., 33.});
        if (t.f.lyrs > 1) t.def = -9999;
        t.upd = c.chance(20) && !com;
        if (t.upd) t.nd = c.pick({-1., -7., -9999.});
        if (c.chance(30)) t.type = c.pick({string("FLOAT"), string("INT32"), string("INT16"), string("INT64")});
        if (t.type == "INT16" && (t.f.nodata == -99999 || m.nodata == -99999)) t.type = "INT32";
        if (in_gfs && t.type[0] == 'I') for (auto& l : t.f.v) for (auto& x : l) x = std::trunc(x);
        if (c.chance(25) && !com) {
            int ml = t.f.lyrs > 1 ? (int)c.range(1, t.f.lyrs) : (int)c.range(1, 2);
            for (int k = 0; k < 8; k++) if (c.coin() || k == 3) {
                vector<double> v(ml);
                for (auto& x : v) x = (double)c.range(50, 90);
                t.recls[k] = v;
                t.recl += (t.recl.empty() ? "" : ",") + num(k) + ":";
                for (int l = 0; l < ml; l++) t.recl += (l ? "|" : "") + num(v[l]);
                // entries that are none are ignored, of several entries of a class the first counts
                while (c.chance(10)) t.recl += "," + c.pick({string("x:55"), string("2.5:60"), string(""), string("4"), string("1:2:3"), string(":70"), num(k) + ":99"});
            }
            if (c.chance(20)) {  // a value that is no number: not applied at all
                string val = c.pick({string("x"), string("7x"), string("1e"), string("--4"), string("6,5").substr(0, 1) + "_"});
                string bad = num((double)c.range(0, 7)) + ":";
                for (int l = 0, at = (int)c.below(ml); l < ml; l++) bad += (l ? "|" : "") + (l == at ? val : num(55));
                t.recl = c.coin() ? t.recl + "," + bad : bad + "," + t.recl;
                t.recls.clear();
                c.label("reclassification refused");
            }
        }
    }
    void pipeline() {
        inputs();
        string mode = c.pick({string("MASK"), string("DEC"), string("MASKDEC"), string("DEC"), string("COM")});
        bool com = mode == "COM", inc = c.chance(80) || in_gfs;
        if (com) has_mask = true;
        int n = config ? (int)c.range(1, 3) : 1;
        prepare();
        vector<Piece> pieces;
        for (int k = 0; k < n; k++) {
            Item t;
            settings(t, com);
            if (com) {
                name(t, k);
                bool any = combined(t, k, pieces);
                if (t.names.empty()) continue;
                if (!any) c.label("no piece of use");
            } else prepare(t, k);
            items.push_back(t);
        }
        if (items.empty()) return;
        c.label(mode + (has_mask ? "" : " without mask") + (in_gfs ? " gfs" : " file") + (out_gfs ? " to gfs" : " to file"));
        c.label(config ? format("configuration file of %d", (int)items.size()) : "command line");
        int code = run_program(words(mode, inc));
        bool judged = com;
        if (!com) for (auto& t : items) judged = expected(t, mode, pieces) || judged;
        if (judged) c.eq(code, 0, "exit code");
        if (!unjudged) check_out(pieces, inc);
    }
    // what masking and decomposing an item writes; false if there is nothing
    bool expected(const Item& t, const string& mode, vector<Piece>& pieces) {
        Grid<double> g;
        if (!masked(t, g)) { c.label("nothing in common"); return false; }
        bool dec = mode != "MASK", all = mode != "DEC", recl = !t.recls.empty();
        if (recl) c.label("reclassified");
        if (t.upd) { for (auto& l : g.v) for (auto& x : l) if (x == g.nodata) x = t.nd; g.nodata = t.nd; }
        size_t cells = 0;
        for (auto& l : g.v) for (auto x : l) cells += x != g.nodata;
        if (cells > 2) c.nontrivial();
        if (valid_cells(g).empty()) {
            c.label("no value");
            if (recl || out_gfs || (dec && !has_mask)) unjudged = true;  // whether something is stored without any value is left open
        }
        std::map<int, Sub> subs;
        if (has_mask && dec) {
            subs = groups_of(m);
            for (auto it = subs.begin(); it != subs.end();) {  // groups without any value of the raster are left out
                bool some = false;
                for (int cell : it->second.cells) some = some || g.v[0][cell] != g.nodata;
                if (some) ++it; else it = subs.erase(it);
            }
        } else subs = groups_of(g);
        vector<int> stored;  // cells the raster keeps
        for (int i = 0; i < g.cells(); i++) if (has_mask ? m.v[0][i] != m.nodata : g.v[0][i] != g.nodata) stored.push_back(i);
        int lyrs = recl ? (int)t.recls.begin()->second.size() : g.lyrs;
        double un = t.def != -9999 ? t.def : g.nodata;
        auto value = [&](int cell, int l) {
            if (!recl) return g.v[l][cell];
            auto it = t.recls.find((int)g.v[g.lyrs > 1 ? l : 0][cell]);
            return it == t.recls.end() ? un : it->second[l];
        };
        vector<Piece> own;
        if (dec) for (auto& s : subs) {
            const Sub& w = s.second;
            Piece p;
            p.name = format("%d_", s.first) + t.out;
            p.type = t.type;
            p.nodata = g.nodata;
            p.rows = w.rows(); p.cols = w.cols(); p.xll = g.x(w.c0); p.yll = g.y(w.r1);
            p.v.assign(lyrs, vector<double>(p.rows * p.cols, g.nodata));
            for (int cell : w.cells) {
                int k = (cell / g.cols - w.r0) * p.cols + cell % g.cols - w.c0;
                p.cells.push_back(k);
                for (int l = 0; l < lyrs; l++) p.v[l][k] = value(cell, l);
            }
            own.push_back(p);
        }
        if (all && !(recl && subs.empty())) {
            Piece p;
            p.plain = !recl;
            p.name = (recl || out_gfs ? "0_" : "") + t.out;
            p.type = t.type;
            p.nodata = g.nodata;
            p.rows = g.rows; p.cols = g.cols; p.xll = g.xll; p.yll = g.yll;
            p.v.assign(lyrs, vector<double>(g.cells(), g.nodata));
            if (!recl) p.v = g.v;
            else for (auto& s : subs) for (int cell : s.second.cells) for (int l = 0; l < lyrs; l++) p.v[l][cell] = value(cell, l);
            p.cells = stored;
            bool same = false;  // a group may be called 0 as well, and what is stored later remains
            for (auto& x : own) if (x.name == p.name) { x = p; same = true; }
            if (!same) own.push_back(p);
        }
        pieces.insert(pieces.end(), own.begin(), own.end());
        return true;
    }
    // pieces of any origin, some missing, and what they combine to; false if none is of use
    bool combined(Item& t, int number, vector<Piece>& pieces) {
        std::map<int, Sub> subs = groups_of(m);
        Grid<double> g = m;
        double un = t.def != -9999 ? t.def : m.nodata;
        bool any = false;
        for (auto& s : subs) {
            const Sub& w = s.second;
            bool have = c.chance(80), wrong = have && c.chance(8);
            Grid<double> q;
            q.dx = m.dx; q.rows = w.rows(); q.cols = w.cols(); q.xll = m.x(w.c0); q.yll = m.y(w.r1);
            q.nodata = t.f.nodata;
            q.v.assign(1, vector<double>(q.cells(), q.nodata));
            for (int cell : w.cells) {
                double x = c.chance(20) ? q.nodata : (double)c.range(0, 40);
                q.v[0][(cell / m.cols - w.r0) * q.cols + cell % m.cols - w.c0] = x;
                g.v[0][cell] = !have || wrong ? un : x == q.nodata ? m.nodata : x;
            }
            if (!have) continue;
            if (wrong) { q.rows++; q.v[0].resize(q.cells(), 3.); }
            any = any || !wrong;
            string n = format("%d_piece%d", s.first, number);
            if (in_gfs) put(q, n, t.type); else n = write_layer(c, dir + "/" + n, q, 0);
            t.names.push_back(n);
            c.note() << " " << format("%d_piece%d", s.first, number) << (wrong ? " of another extent" : " ") << q.str();
        }
        if (t.names.empty() || !any) return false;
        Piece p;
        p.name = "0_" + t.out;
        p.type = t.type;
        p.nodata = m.nodata;
        p.rows = m.rows; p.cols = m.cols; p.xll = m.xll; p.yll = m.yll;
        p.v = g.v;
        p.cells = valid_cells(m);
        pieces.push_back(p);
        if (subs.size() > 1) c.nontrivial();
        return true;
    }
    // arguments without sense
    void junk() {
        inputs();
        prepare();
        Item t;
        t.f = source();
        prepare(t, 0);
        Words& in_names = t.names;
        string before;
        auto state = [&] {
            string s;
            for (auto& n : names_in(dir)) { if (n == "out" || n.find("masked") != string::npos) continue; std::ifstream i(dir + "/" + n); std::stringstream b; b << i.rdbuf(); s += n + ":" + b.str() + "\n"; }
            return s;
        };
        Words vocabulary = {"-in", "-in", "-mask", "-mask", "-out", "-out", "-mode", "-mode", "-mongo", "-default", "-nodata", "-outdatatype", "-reclass", "-thread", "-include_nodata", "-configfile", "-", "--",
                            "file", "gfs", "FILE", "MASK", "DEC", "MASK&DEC", "COM", "com", "1", "0", "-9999", "-1.5", "1:2,3:4", "1:2|3,x", ":", ",", ";", "", "INT8", "uint16", "nothing", "127.0.0.1", "27017", "model", "SPATIAL",
                            mask_name, in_names[0], in_names[0], dir + "/out/o.asc", dir + "/out/o.tif", dir + "/missing.asc", dir + "/out", "source0", "area", "1_piece"};
        bool cf = c.chance(40);
        if (cf) {
            std::ofstream s(dir + "/run.txt");
            size_t lines = c.len(0, 6);
            for (size_t i = 0; i < lines; i++) {
                size_t n = c.len(1, 5);
                string sep = c.pick({string("\t"), string(";"), string(" ")});
                for (size_t k = 0; k < n; k++) s << (k ? sep : "") << c.pick(vocabulary);
                s << (c.chance(90) ? "\n" : "\r\n");
            }
            vocabulary.push_back(dir + "/run.txt");
            vocabulary.push_back(dir + "/run.txt");
        }
        before = state();
        Words w;
        size_t n = c.len(0, 14);
        if (cf && c.coin()) { w.push_back("-configfile"); w.push_back(dir + "/run.txt"); }
        for (size_t k = 0; k < n; k++) w.push_back(c.pick(vocabulary));
        for (size_t k = 0; k + 1 < w.size(); k++) if (w[k] == "-out" && !(w[k + 1] == "gfs")) w[k + 1] = dir + "/out/o.asc";
        show(w);
        if (cf) { std::ifstream i(dir + "/run.txt"); std::stringstream b; b << i.rdbuf(); c.note() << "\n" << b.str(); }
        int code = run_program(w);
        c.check(code >= 0 && code <= 3, format("exit code %d", code));
        if (!cf) c.eq(state(), before, "the input files");  // a configuration may name them as output
        c.label(format("arguments without sense, code %d", code));
    }
    void run() {
        char cwd[4096];
        c.check(getcwd(cwd, sizeof cwd) != nullptr, "working directory");
        c.check(chdir(dir.c_str()) == 0, "working directory");
        if (c.chance(75)) pipeline(); else junk();
        (void)!chdir(cwd);
        c.eq(fake::server.error, string(), "misuse of the driver");
    }
};
void x01(Ctx& c) { App(c).run(); }
PBT_STATIC([] {
    auto& p = add("X01", 30000, 300000, "a run that masks, decomposes or combines data of more than two valid cells or two or more pieces", x01);
    p.worker_init = gdal_init;
    p.assumptions = {"The MongoDB driver is replaced by an in-process stand-in with its documented behaviour.", "The program's main function is called in the process of the check."};
});
}  // namespace
