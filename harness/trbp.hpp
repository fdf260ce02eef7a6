#pragma once
#include "propagation.hpp"
#include <opengm/inference/messagepassing/messagepassing_trbp.hxx>
namespace prop {
template<class GM, class ACC, class B, class D> struct Weights<opengm::MessagePassing<GM, ACC, opengm::TrbpUpdateRules<GM, ACC, B>, D> > {
   template<class P> static void set(P& p, const RefModel& ref, Rng& r) { if(r.chance(0.6)) p.specialParameter_.assign(ref.f.size(), 1); }
};
}
