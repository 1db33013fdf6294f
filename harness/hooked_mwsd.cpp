#include "signal_hook.hpp"
#include "mws/mwsd.cpp"
