// CFLAGS: -DDPPIR_SAMPLE
// LINK: -Wl,--wrap=_ZNK5DPPIR5noise17NoiseDistribution10SampleRealEv
#include "layer.h"
int main(int argc, char** argv) { return layer_main(argc, argv, true, W_COUNTS|W_FORWARD); }
