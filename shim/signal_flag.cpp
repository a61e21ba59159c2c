#include <signal.h>
volatile sig_atomic_t received_signal = 0;
