// U02: energies, types and sizes of the stochastic interactions
#include "fake.h"
#include "xs.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
const char* pbt::property_id = "U02";

static double gen_rnd(Ctx& c)
{
    switch (c.i(0, 7)) {
    case 0: return std::nextafter(1., 0.);
    case 1: return c.logu(1e-300, 1e-3);
    case 2: return 1 - c.logu(1e-15, 1e-2);
    default: return c.prob();
    }
}
LAW(interaction_energy, 80000, 1000, "the interaction happens before the lower limit")
{
    double lower = c.logu(1e-2, 1e4);
    auto s = fake::gen_set(c, lower);
    lower = s->lower;
    double Ei = c.flag(1, 10) ? lower : c.logu(lower, 1e10), rnd = gen_rnd(c);
    if (Ei - lower < 1e-8 * lower)
        Ei = lower; // counts as equal
    bool shared = c.flag();
    c.note("%s from %.17g with %.17g", s->text().c_str(), Ei, rnd);
    if (!(rnd > 0))
        c.discard();
    auto inter = shared ? make_interaction(s->list, false) : make_interaction(std::shared_ptr<Displacement>(make_displacement(s->list, false)), s->list, false);
    auto f = [&](double E) { return s->dndx(E) / s->dedx(E); };
    auto integral = [&](double hi, double lo) { return hi > lo ? quad_log(f, lo, hi, 1e-9) : 0.; };
    double all = integral(Ei, lower), want = -std::log(rnd);
    double tiny = 1e-9 * Ei * f(Ei);
    c.close(inter->EnergyIntegral(Ei, lower), all, 3e-4, tiny, "interaction integral");
    double E = inter->EnergyInteraction(Ei, rnd);
    c.check(E >= lower * (1 - 1e-9) && E <= Ei * (1 + 1e-9), "energy %.17g outside [%.17g, %.17g]", E, lower, Ei);
    if (want > all * (1 + 3e-4) + tiny) {
        c.check(E == lower, "no interaction is due, but the energy is %.17g instead of %.17g", E, lower);
    } else if (want < all * (1 - 3e-4) - tiny) {
        E = std::min(E, Ei);
        // the position is searched to a fraction of the logarithm of the energy
        double tol = 4e-4 * all + f(E) * E * 3e-5 * (1 + std::fabs(std::log(E)));
        c.check(std::fabs(integral(Ei, E) - want) <= tol, "the integral to %.17g is %.12g instead of %.12g (of %.12g)", E, integral(Ei, E), want, all);
        c.nontrivial();
    }
    // monotone
    double r2 = gen_rnd(c);
    if (r2 > 0) {
        double E2 = inter->EnergyInteraction(Ei, r2), hi = std::max(E, E2);
        double slope = f(hi) * hi;
        double tol = slope > 0 ? (4e-4 * all / slope + 6e-5 * (1 + std::fabs(std::log(hi)))) * hi : 0;
        if (slope > 1e-3 * all)
            c.check((rnd <= r2) ? E <= E2 + tol : E2 <= E + tol, "%.17g gives %.17g, %.17g gives %.17g", rnd, E, r2, E2);
    }
}
LAW(rates, 48000, 500, "a rate is positive")
{
    double lower = c.logu(1e-2, 1e4);
    auto s = fake::gen_set(c, lower, true, 5);
    double E = c.logu(s->lower, 1e10);
    c.note("%s at %.17g", s->text().c_str(), E);
    auto inter = make_interaction(s->list, false);
    auto r = inter->Rates(E);
    size_t n = 0;
    double sum = 0;
    for (size_t k = 0; k < s->models.size(); ++k)
        for (size_t i = 0; i < s->models[k].rate.size(); ++i, ++n) {
            size_t found = 0;
            for (auto& q : r)
                if (q.crosssection == s->list[k] && q.comp_hash == fake::Cross::target(i)) {
                    ++found;
                    c.close(q.rate, s->models[k].dndx(E, i), 1e-12, 0, "rate");
                }
            c.check(found == 1, "a target is listed %zu times", found);
            sum += s->models[k].dndx(E, i);
        }
    c.check(r.size() == n, "%zu rates instead of %zu", r.size(), n);
    double mfp = inter->MeanFreePath(E);
    c.check(sum > 0 ? std::fabs(mfp * sum - 1) < 1e-12 : std::isinf(mfp) && mfp > 0, "mean free path %.17g, rate %.17g", mfp, sum);
    c.close(inter->FunctionToIntegral(E), -sum / s->dedx(E), 1e-12, 0, "integrand");
    if (sum > 0)
        c.nontrivial();
}
LAW(choice, 48000, 500, "several rates are positive")
{
    // the numbers that choose an interaction cover exactly its share
    auto s = fake::gen_set(c, 1, true, 5);
    double E = c.logu(1, 1e8);
    auto inter = make_interaction(s->list, false);
    auto r = inter->Rates(E);
    if (c.flag(1, 3) && r.size() > 1)
        for (size_t i = r.size() - 1; i > 0; --i)
            std::swap(r[i], r[c.i(0, i)]);
    if (c.flag(1, 4) && !r.empty())
        r[c.i(0, r.size() - 1)].rate = 0; // the caller's rates are used
    double total = 0;
    for (auto& q : r)
        total += q.rate;
    const int N = 400;
    double shift = c.prob();
    c.note("%s at %.17g shift %.17g", s->text().c_str(), E, shift);
    std::map<std::pair<CrossSectionBase*, size_t>, std::vector<double>> got;
    for (int i = 0; i < N; ++i) {
        s->log.clear();
        auto loss = inter->SampleLoss(E, r, (i + std::min(shift, 0.999)) / N);
        if (total == 0) {
            c.check(loss.type == InteractionType::Undefined && loss.v_loss == 0 && s->log.empty(), "a loss without any rate");
            continue;
        }
        c.check(s->log.size() == 1, "%zu losses sampled", s->log.size());
        auto q = s->log[0];
        CrossSectionBase* x = nullptr;
        fake::Model* m = nullptr;
        for (size_t k = 0; k < s->models.size(); ++k)
            if (s->models[k].id == q.id)
                x = s->list[k].get(), m = &s->models[k];
        c.check(loss.type == m->type && loss.comp_hash == q.target && q.E == E, "the loss is of another interaction, target or energy");
        c.check(loss.v_loss == q.rate / m->dndx(E, q.target - 1000), "the loss is not the sampled one");
        got[{ x, q.target }].push_back(q.rate);
    }
    if (total == 0)
        return;
    for (auto& q : r) {
        auto& v = got[{ q.crosssection.get(), q.comp_hash }];
        double share = q.rate / total;
        c.check(std::fabs(v.size() / double(N) - share) <= 1.001 / N, "share %.6g of the numbers, %.6g of the rate", v.size() / double(N), share);
        if (q.rate == 0)
            c.check(v.empty(), "an interaction without rate was chosen");
        std::sort(v.begin(), v.end());
        for (size_t i = 0; i < v.size(); ++i) {
            c.check(v[i] > 0 && v[i] <= q.rate * (1 + 1e-9) + 1e-14 * total, "rate %.17g handed over, %.17g is the total", v[i], q.rate);
            // evenly spread
            if (i)
                c.check(std::fabs(v[i] - v[i - 1] - total / N) <= 1e-9 * total, "rates handed over are not spread evenly");
        }
    }
    if (got.size() > 1)
        c.nontrivial();
}
LAW(choice_borders, 160000, 2500, "several rates are positive")
{
    // numbers at the borders between two interactions, close to zero and one
    auto s = fake::gen_set(c, 1, true, 5);
    double E = c.logu(1, 1e8);
    auto inter = make_interaction(s->list, false);
    auto r = inter->Rates(E);
    double total = 0;
    std::vector<double> at { 0, 1 };
    int positive = 0;
    for (auto& q : r)
        total += q.rate, positive += q.rate > 0;
    double sum = 0;
    for (auto& q : r)
        sum += q.rate, at.push_back(sum / total);
    if (!(total > 0))
        c.discard();
    double x = c.pick(at);
    int n = (int)c.i(0, 3);
    bool up = c.flag();
    for (int i = 0; i < n; ++i)
        x = std::nextafter(x, up ? 2. : -1.);
    x = std::min(std::max(x, 0.), std::nextafter(1., 0.));
    c.note("%s at %.17g with %.17g", s->text().c_str(), E, x);
    auto loss = inter->SampleLoss(E, r, x);
    c.check(s->log.size() == 1, "%zu losses sampled", s->log.size());
    auto q = s->log[0];
    for (auto& m : s->models)
        if (m.id == q.id) {
            double rate = m.dndx(E, q.target - 1000);
            c.check(rate > 0, "an interaction without rate was chosen");
            c.check(q.rate >= 0 && q.rate <= rate * (1 + 1e-9) + 1e-14 * total, "rate %.17g handed over, %.17g is the total", q.rate, rate);
            c.check(loss.type == m.type, "type");
        }
    if (positive > 1)
        c.nontrivial();
}
LAW(real, 480, 6, "a loss was sampled")
{
    auto p = xs::gen_particle(c);
    auto m = xs::gen_medium(c);
    bool e = std::abs(p.particle_type) == 11, g = p.particle_type == 22;
    double E = xs::gen_energy(c, g ? 10. : std::max(p.mass * 1.5, e ? 55. : 0.), 1e10);
    auto cut = std::make_shared<EnergyCutSettings>(c.flag() ? 500. : INF, 0.05, false);
    fake::List list;
    std::vector<xs::Xs> all;
    std::string t;
    for (auto& q : xs::specs_for(p)) {
        bool take = g ? q.family == "compton" || q.name == "Tsai" : q.family == "ioniz" || (q.family == "brems" && q.name == (e ? "ElectronScreening" : "KelnerKokoulinPetrukhin")) || (q.name == "Zeus" && !q.hard) || (q.family == "mupair" && !e && c.flag());
        if (!take)
            continue;
        all.push_back(xs::make(q, p, m, cut));
        list.push_back(xs::CrossPtr(all.back().build(q.only_stochastic() ? nullptr : cut, false)));
        t += q.text() + " ";
    }
    c.note("%s %sin %s %s at %.17g", p.name.c_str(), t.c_str(), xs::text(m).c_str(), xs::text(cut).c_str(), E);
    auto inter = make_interaction(list, false);
    auto r = inter->Rates(E);
    double total = 0;
    for (auto& q : r)
        total += q.rate;
    double want = 0;
    for (auto& l : list)
        want += l->CalculatedNdx(E);
    c.close(total, want, 1e-9, 0, "sum of the rates");
    if (!(total > 0))
        return;
    for (int k = 0; k < 4; ++k) {
        double u = gen_rnd(c);
        auto loss = inter->SampleLoss(E, r, u);
        c.check(loss.v_loss >= 0 && loss.v_loss <= 1, "loss %.17g", loss.v_loss);
        bool ok = false;
        for (size_t i = 0; i < list.size(); ++i)
            if (list[i]->GetInteractionType() == loss.type)
                for (size_t n = 0; n < all[i].targets(); ++n)
                    if (all[i].hash(n) == loss.comp_hash) {
                        auto l = all[i].limits(n, E);
                        auto cc = list[i]->GetEnergyCutSettings();
                        double lo = cc ? cc->GetCut(l, E) : l.v_min;
                        if (all[i].spec.only_stochastic())
                            lo = l.v_max = 1;
                        ok |= list[i]->CalculatedNdx(E, loss.comp_hash) > 0 && loss.v_loss >= lo * (1 - 1e-6) && loss.v_loss <= l.v_max * (1 + 1e-6) + 1e-12;
                    }
        c.check(ok, "no interaction of type %zu has a loss of %.17g", (size_t)loss.type, loss.v_loss);
    }
    c.nontrivial();
}
LAW(empty, 160, 20, "always")
{
    fake::List none;
    auto s = fake::gen_set(c, 1);
    auto d = std::shared_ptr<Displacement>(make_displacement(s->list, false));
    THROWS(c, make_interaction(d, none, false), "no cross sections");
    c.nontrivial();
}
