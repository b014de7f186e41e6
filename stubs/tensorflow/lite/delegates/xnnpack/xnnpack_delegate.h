// Declarations only; see README.md.
#ifndef VERIF_STUB_XNNPACK_DELEGATE_H
#define VERIF_STUB_XNNPACK_DELEGATE_H
#include "tensorflow/lite/c/c_api_types.h"
extern "C" {
#define TFLITE_XNNPACK_DELEGATE_FLAG_QS8 0x00000001
#define TFLITE_XNNPACK_DELEGATE_FLAG_QU8 0x00000002
typedef struct {
  int32_t num_threads;
  uint32_t flags;
  void* weights_cache;
} TfLiteXNNPackDelegateOptions;
TfLiteXNNPackDelegateOptions TfLiteXNNPackDelegateOptionsDefault();
TfLiteDelegate* TfLiteXNNPackDelegateCreate(
    const TfLiteXNNPackDelegateOptions* options);
void TfLiteXNNPackDelegateDelete(TfLiteDelegate* delegate);
}
#endif
