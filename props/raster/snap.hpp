// All a raster shows, as named texts.
#pragma once
#include "ras.hpp"

namespace {
template <class T, class M = T>
struct Snap {
    std::map<string, string> f;
    template <class X>
    void put(const string& k, const X& x) {
        std::ostringstream o;
        o.precision(17);
        o << x;
        f[k] = o.str();
    }
    explicit Snap(clsRasterData<T, M>& r) {
        bool data = r.ValidateRasterData();
        put("rows", r.GetRows()); put("columns", r.GetCols()); put("layers", r.GetLayers()); put("2D", r.Is2DRaster()); put("data present", data);
        put("cells", r.GetCellNumber()); put("data length", r.GetDataLength());
        put("nodata", +r.GetNoDataValue()); put("default", r.GetDefaultValue());
        put("cell size", r.GetCellWidth()); put("x", r.GetXllCenter()); put("y", r.GetYllCenter());
        put("type", r.GetDataType()); put("output type", r.GetOutDataType());
        put("file", r.GetFilePath()); put("core", r.GetCoreName());
        put("positions calculated", r.PositionsCalculated()); put("mask extent", r.MaskExtented()); put("mask", (void*)r.GetMask());
        put("statistics calculated", r.StatisticsCalculated()); put("initialized", r.Initialized());
        put("srs", r.GetSrsString()); put("srs*", r.GetSrs());
        for (auto& h : r.GetRasterHeader()) put("header " + h.first, h.second);
        for (auto& h : r.GetOptions()) put("option " + h.first, h.second);
        if (data) {
            std::ostringstream o, p;
            o.precision(17);
            for (int l = 1; l <= r.GetLayers(); l++) for (int i = 0; i < r.GetRows(); i++) for (int j = 0; j < r.GetCols(); j++) o << +r.GetValue(i, j, l) << (j + 1 < r.GetCols() ? " " : i + 1 < r.GetRows() ? "; " : " | ");
            put("values", o.str());
            for (int i = 0; i < r.GetRows(); i++) for (int j = 0; j < r.GetCols(); j++) p << r.GetPosition(i, j) << " ";
            put("positions", p.str());
        } else {
            (void)r.GetValue(0, 0); (void)r.GetValueByIndex(0); (void)r.GetPosition(0, 0); (void)r.GetValueByIndex(r.GetCellNumber() - 1);
        }
        std::ostringstream q;
        if (r.GetRasterPositionIndexPointer()) for (int i = 0; i < r.GetCellNumber(); i++) q << r.GetRasterPositionIndexPointer()[i] << " ";
        if (r.GetRasterPositionDataPointer()) for (int i = 0; i < r.GetCellNumber(); i++) q << r.GetRasterPositionDataPointer()[i][0] << "," << r.GetRasterPositionDataPointer()[i][1] << " ";
        put("position data", q.str());
        if (r.StatisticsCalculated()) {
            std::ostringstream s;
            s.precision(12);
            if (r.Is2DRaster()) { for (auto& x : r.GetStatistics2D()) for (int l = 0; l < r.GetLayers(); l++) s << x.first << "=" << (x.second ? x.second[l] : 0) << " "; }
            else for (auto& x : r.GetStatistics()) s << x.first << "=" << x.second << " ";
            put("statistics", s.str());
        }
        for (auto& x : r.GetSubset()) {
            std::ostringstream s;
            dr::SubsetPositions* p = x.second;
            s << p->usable << " " << p->n_cells << " lyrs " << p->n_lyrs << " [" << p->g_srow << "," << p->g_erow << "," << p->g_scol << "," << p->g_ecol << "]";
            for (int i = 0; i < p->n_cells; i++) {
                s << " " << p->global_[i] << ":" << p->local_pos_[i][0] << "," << p->local_pos_[i][1] << "," << p->local_posidx_[i];
                if (p->data_) s << "=" << p->data_[i];
                if (p->data2d_) for (int l = 0; l < p->n_lyrs; l++) s << "=" << p->data2d_[i][l];
            }
            put(format("subset %d", x.first), s.str());
        }
    }
    string diff(const Snap& o, const std::set<string>& except = std::set<string>()) const {
        std::ostringstream d;
        for (auto& x : f) {
            if (except.count(x.first)) continue;
            auto it = o.f.find(x.first);
            if (it == o.f.end()) d << x.first << ": \"" << x.second.substr(0, 200) << "\", other: none; ";
            else if (it->second != x.second) d << x.first << ": \"" << x.second.substr(0, 200) << "\", other: \"" << it->second.substr(0, 200) << "\"; ";
        }
        for (auto& x : o.f) if (!f.count(x.first) && !except.count(x.first)) d << x.first << ": none, other: \"" << x.second.substr(0, 200) << "\"; ";
        return d.str();
    }
};
}  // namespace
