// CFLAGS: -DDPPIR_SAMPLE
// LINK: -Wl,--wrap=_ZNK5DPPIR5noise17NoiseDistribution10SampleRealEv
#include "layer.h"
int main(int argc, char** argv) { return layer_main(argc, argv, false, W_RESPONSE); }
