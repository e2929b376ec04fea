// In-memory stand-in for minio-cpp (>= 0.3.0), covering the part of its API that acquire-zarr can use.
//
// It is the *monitor* for the S3 back end: it implements the S3 object and multipart-upload rules strictly, records
// every request in an event log, and takes a fault plan and latencies from the harness. Nothing leaves the process.
#pragma once

#include "azs3.h"
