#include "libmy/my_queue_mutex.c"
