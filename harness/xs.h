// catalogue of the cross section parametrizations, bound to a particle and a
// medium, and generators for particles, media, energies and cuts
#pragma once
#include "common.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/CrossSection.h"
#include "PROPOSAL/crosssection/parametrization/Parametrization.h"
#include "PROPOSAL/crosssection/parametrization/ParametrizationDirect.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <memory>

namespace xs {
using Cut = std::shared_ptr<const EnergyCutSettings>;
using CrossPtr = std::shared_ptr<CrossSectionBase>;

struct Spec {
    std::string family; // brems epair mupair ioniz photonuclear weak annihilation compton photopair photomupair photoproduction photoeffect
    std::string name;
    bool lpm = false, hard = false;
    bool bound = false; // built with particle and medium even without lpm, as the factories do
    double density_correction = 1;
    int shadow = 0; // 0 DuttaReno.. 1 ButkevichMikheyev
    bool only_stochastic() const; // no cut allowed
    bool real_photon() const { return family == "photonuclear" && (name == "Zeus" || name == "BezrukovBugaev" || name == "Kokoulin" || name == "Rhode"); }
    bool direct() const { return family == "annihilation" || family == "photoproduction" || family == "photoeffect"; }
    std::string text() const;
};

struct Xs {
    Spec spec;
    ParticleDef p;
    Medium m;
    std::vector<Component> comp;
    std::shared_ptr<crosssection::Parametrization<Component>> pc;
    std::shared_ptr<crosssection::Parametrization<Medium>> pm;
    std::shared_ptr<crosssection::ParametrizationDirect> pd;
    std::function<std::unique_ptr<CrossSectionBase>(Cut, bool)> build;
    size_t type = 0;

    Xs(Spec const& s, ParticleDef const& p_, Medium const& m_) : spec(s), p(p_), m(m_), comp(m_.GetComponents()) { }

    size_t targets() const { return pm ? 1 : comp.size(); }
    crosssection::KinematicLimits limits(size_t t, double E) const { return pm ? pm->GetKinematicLimits(p, m, E) : pc->GetKinematicLimits(p, comp[t], E); }
    double dsigma(size_t t, double E, double v) const { return pm ? pm->DifferentialCrossSection(p, m, E, v) : pc->DifferentialCrossSection(p, comp[t], E, v); }
    double weight(size_t t) const { return pm ? 1. : m.GetSumNucleons() / (comp[t].GetAtomInMolecule() * comp[t].GetAtomicNum()); }
    size_t hash(size_t t) const { return pm ? m.GetHash() : comp[t].GetHash(); }
    double threshold() const { return pm ? pm->GetLowerEnergyLim(p) : pc ? pc->GetLowerEnergyLim(p) : pd->GetLowerEnergyLim(p, m, nullptr); }
    size_t param_hash() const { return pm ? pm->GetHash() : pc->GetHash(); }
};

// the cut matters for ionization only (its parametrizations know the cut)
Xs make(Spec const&, ParticleDef const&, Medium const&, Cut);

// every specification usable with this particle (no lpm)
std::vector<Spec> specs_for(ParticleDef const&);
Spec gen_spec(Ctx&, ParticleDef const&);

// charged lepton, tau, custom charged particle of other mass and charge, photon
ParticleDef gen_particle(Ctx&, bool photon = true);
ParticleDef heavy(double mass, double charge);
Medium gen_medium(Ctx&);
std::string text(Medium const&);
double gen_energy(Ctx&, double above, double top = 1e14);
Cut gen_cut(Ctx&, double E, double lowest_ecut = 1e-2, bool allow_all_continuous = true, bool allow_null = true);
std::string text(Cut const&);
}
