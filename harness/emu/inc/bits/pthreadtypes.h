#pragma once
typedef int pthread_mutex_t, pthread_once_t; typedef unsigned long pthread_t;
