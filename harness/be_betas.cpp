// the beta header through its short names
#define BETA_SHORT
#include "be_beta.cpp"
