// Declarations only; see README.md.
#ifndef VERIF_STUB_TFLITE_C_API_TYPES_H
#define VERIF_STUB_TFLITE_C_API_TYPES_H
#include <cstdint>
typedef enum TfLiteStatus {
  kTfLiteOk = 0,
  kTfLiteError = 1,
  kTfLiteDelegateError = 2,
  kTfLiteApplicationError = 3,
  kTfLiteDelegateDataNotFound = 4,
  kTfLiteDelegateDataWriteError = 5,
  kTfLiteDelegateDataReadError = 6,
  kTfLiteUnresolvedOps = 7,
  kTfLiteCancelled = 8,
} TfLiteStatus;
typedef enum {
  kTfLiteNoType = 0,
  kTfLiteFloat32 = 1,
  kTfLiteInt32 = 2,
} TfLiteType;
typedef union TfLitePtrUnion {
  int32_t* i32;
  float* f;
  double* f64;
  void* data;
} TfLitePtrUnion;
typedef struct TfLiteIntArray {
  int size;
  int data[1];
} TfLiteIntArray;
typedef struct TfLiteTensor {
  TfLiteType type;
  TfLitePtrUnion data;
  TfLiteIntArray* dims;
  size_t bytes;
} TfLiteTensor;
typedef enum TfLiteDelegateFlags {
  kTfLiteDelegateFlagsNone = 0,
  kTfLiteDelegateFlagsAllowDynamicTensors = 1,
} TfLiteDelegateFlags;
typedef struct TfLiteDelegate {
  void* data_;
  int64_t flags;
} TfLiteDelegate;
#endif
