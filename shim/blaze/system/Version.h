#define BLAZE_MAJOR_VERSION 3
#define BLAZE_MINOR_VERSION 2
