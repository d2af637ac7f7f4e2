/* C20: the synchronized client queue; same machinery as the array queue. */
#define CLIENT_QUEUE
#include "c19.c"
