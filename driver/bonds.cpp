// Conformance driver for Bonds.tla
#include "bondops.hpp"

int main()
{
    return verif::drive(verif::resetBonds, verif::handleBonds);
}
