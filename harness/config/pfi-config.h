// stands for the header waf configure generates
#ifndef PFICOMMON_VERSION
#define PFICOMMON_VERSION "verif"
#endif
