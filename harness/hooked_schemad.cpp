#include "signal_hook.hpp"
#include "mws/schemad.cpp"
