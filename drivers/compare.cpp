// The comparisons of all features, instantiated so that the analysis sees them (never run).
#include "ppocr/strategies/alternations.hpp"
#include "ppocr/strategies/density.hpp"
#include "ppocr/strategies/dvdirection.hpp"
#include "ppocr/strategies/dvdirection2.hpp"
#include "ppocr/strategies/dvgravity.hpp"
#include "ppocr/strategies/dvgravity2.hpp"
#include "ppocr/strategies/dzdensity.hpp"
#include "ppocr/strategies/hbar.hpp"
#include "ppocr/strategies/hdirection.hpp"
#include "ppocr/strategies/hdirection2.hpp"
#include "ppocr/strategies/hgravity.hpp"
#include "ppocr/strategies/hgravity2.hpp"
#include "ppocr/strategies/proportionality.hpp"
#include "ppocr/strategies/proportionality_zone.hpp"
#include "ppocr/strategies/zone.hpp"

#define COMPARE(x) \
    unsigned cmp_##x(ppocr::strategies::x::value_type const & a, ppocr::strategies::x::value_type const & b) \
    { return static_cast<unsigned>(ppocr::strategies::x::relationship_type::compute(a, b)); } \
    double dst_##x(ppocr::strategies::x::value_type const & a, ppocr::strategies::x::value_type const & b) \
    { return ppocr::strategies::x::relationship_type::dist(a, b); }
COMPARE(alternations)
COMPARE(density)
COMPARE(dvdirection)
COMPARE(dvdirection2)
COMPARE(dvgravity)
COMPARE(dvgravity2)
COMPARE(dzdensity)
COMPARE(hbar)
COMPARE(hdirection)
COMPARE(hdirection2)
COMPARE(hgravity)
COMPARE(hgravity2)
COMPARE(proportionality)
COMPARE(proportionality_zone)
COMPARE(zone)
