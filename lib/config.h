/* Fixed configuration used by every harness (same switches as the default build). */
#pragma once
#define DLB_CONFIGURE_ARGS "verif"
#define DLB_VERSION_MAJOR 3
#define DLB_VERSION_MINOR 5
#define DLB_VERSION_PATCH 0
#define DLB_VERSION_STRING "dlb verif"
#define HAVE_STDATOMIC_H
#define PACKAGE "dlb"
#define PACKAGE_BUGREPORT "dlb@bsc.es"
#define PACKAGE_NAME "dlb"
#define PACKAGE_VERSION "3.5.0"
#define VERSION "3.5.0"
