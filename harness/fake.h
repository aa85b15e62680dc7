// cross sections with closed-form losses and rates
#pragma once
#include "common.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/crosssection/CrossSection.h"
#include "PROPOSAL/crosssection/CrossSectionVector.h"
#include <memory>

namespace fake {
using namespace PROPOSAL;
struct Model {
    double a = 0, b = 0; // dE/dx = a + b E
    double s = 0, t = 0; // dE2/dx = s E^t
    std::vector<std::pair<double, double>> rate; // per target: r E^q
    double lower = 1;
    double from = 0; // the interaction is possible above
    size_t id = 0;
    InteractionType type = InteractionType::Ioniz;
    std::string text() const
    {
        std::string x = strf("{dE/dx %g + %g E, dE2/dx %g E^%g, lower %g, from %g, dN/dx", a, b, s, t, lower, from);
        for (auto& r : rate)
            x += strf(" %g E^%g", r.first, r.second);
        return x + "}";
    }
    double dedx(double E) const { return E < from ? 0 : a + b * E; }
    double de2dx(double E) const { return E < from || s == 0 ? 0 : s * std::pow(E, t); }
    double dndx(double E, size_t i) const { return E < from ? 0 : rate[i].first * std::pow(E, rate[i].second); }
    double dndx(double E) const
    {
        double x = 0;
        for (size_t i = 0; i < rate.size(); ++i)
            x += dndx(E, i);
        return x;
    }
};
struct Request {
    size_t id, target;
    double E, rate;
};
struct Cross : CrossSectionBase {
    Model m;
    std::shared_ptr<const EnergyCutSettings> cut;
    std::vector<Request>* log = nullptr;
    Cross(Model const& m_, std::shared_ptr<const EnergyCutSettings> c = nullptr) : m(m_), cut(c ? c : std::make_shared<EnergyCutSettings>(500., 0.05, true)) { }
    static size_t target(size_t i) { return 1000 + i; }
    double CalculatedEdx(double E) override { return m.dedx(E); }
    double CalculatedE2dx(double E) override { return m.de2dx(E); }
    double CalculatedNdx(double E) override { return m.dndx(E); }
    double CalculatedNdx(double E, size_t h) override { return m.dndx(E, h - 1000); }
    double CalculateCumulativeCrosssection(double E, size_t h, double v) override { return m.dndx(E, h - 1000) * (1 - v); }
    std::vector<std::pair<size_t, double>> CalculatedNdx_PerTarget(double E) override
    {
        std::vector<std::pair<size_t, double>> r;
        for (size_t i = 0; i < m.rate.size(); ++i)
            r.push_back({ target(i), m.dndx(E, i) });
        return r;
    }
    double CalculateStochasticLoss(size_t h, double E, double rate) override
    {
        if (log)
            log->push_back({ m.id, h, E, rate });
        return rate / m.dndx(E, h - 1000);
    }
    double GetLowerEnergyLim() const override { return m.lower; }
    size_t GetHash() const noexcept override
    {
        size_t h = 77;
        hash_combine(h, m.a, m.b, m.s, m.t, m.lower, m.from, m.id);
        for (auto& r : m.rate)
            hash_combine(h, r.first, r.second);
        return h;
    }
    InteractionType GetInteractionType() const noexcept override { return m.type; }
    std::string GetParametrizationName() const noexcept override { return "fake"; }
    std::shared_ptr<const EnergyCutSettings> GetEnergyCutSettings() const noexcept override { return cut; }
};
using List = std::vector<std::shared_ptr<CrossSectionBase>>;
struct Set {
    std::vector<Model> models;
    List list;
    double lower = 1e300;
    std::vector<Request> log;
    double dedx(double E) const { double x = 0; for (auto& m : models) x += m.dedx(E); return x; }
    double de2dx(double E) const { double x = 0; for (auto& m : models) x += m.de2dx(E); return x; }
    double dndx(double E) const { double x = 0; for (auto& m : models) x += m.dndx(E); return x; }
    double a() const { double x = 0; for (auto& m : models) x += m.a; return x; }
    double b() const { double x = 0; for (auto& m : models) x += m.b; return x; }
    std::string text() const { std::string s; for (auto& m : models) s += m.text() + " "; return s; }
};
// steps: the interactions set in at different energies
inline std::shared_ptr<Set> gen_set(Ctx& c, double lower, bool steps = false, int max = 3)
{
    auto s = std::make_shared<Set>();
    int n = (int)c.i(1, max);
    static const InteractionType types[] = { InteractionType::Ioniz, InteractionType::Brems, InteractionType::Epair, InteractionType::Photonuclear, InteractionType::MuPair };
    for (int i = 0; i < n; ++i) {
        Model m;
        m.id = i;
        m.type = types[i % 5];
        m.lower = lower * (i == 0 ? 1 : c.flag() ? 1 : c.u(1, 10));
        m.from = steps && i > 0 && c.flag() ? lower * c.logu(1, 1e3) : 0;
        int kind = (int)c.i(0, 3);
        if (kind != 1 || i == 0)
            m.a = c.logu(0.1, 10);
        if (kind > 0)
            m.b = c.logu(1e-7, 1e-4);
        m.s = c.flag(3, 4) ? c.logu(1e-6, 1e-2) : 0;
        m.t = c.pick({ 0., 1., 1.5, 2. });
        int targets = (int)c.i(0, 3);
        for (int k = 0; k < targets; ++k)
            m.rate.push_back({ c.flag(1, 6) ? 0. : c.logu(1e-6, 1e-1), c.pick({ 0., 0., 0.2, 0.5, -0.3 }) });
        s->models.push_back(m);
    }
    // any order
    for (int i = n - 1; i > 0; --i)
        std::swap(s->models[i], s->models[c.i(0, i)]);
    for (auto& m : s->models) {
        auto x = std::make_shared<Cross>(m);
        x->log = &s->log;
        s->list.push_back(x);
        s->lower = std::min(s->lower, m.lower);
    }
    return s;
}
}
