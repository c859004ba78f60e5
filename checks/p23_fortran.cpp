// P23: the Fortran entry points behave exactly like the C++ interface. Same histories as for the C interface (P22), driven
// through the Fortran binary interface.
#define FORTRAN_TWIN
#include "p22_cinterface.cpp"
