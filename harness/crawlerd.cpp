// The crawler daemon, storing below / instead of in the source tree.
#include "build-gen/config.h"
#undef HARVESTFILES_PATH
#define HARVESTFILES_PATH "/"
#include "crawler/crawlerd.cpp"
