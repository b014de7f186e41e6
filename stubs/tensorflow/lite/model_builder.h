// Declarations only; see README.md.
#ifndef VERIF_STUB_TFLITE_MODEL_BUILDER_H
#define VERIF_STUB_TFLITE_MODEL_BUILDER_H
#include <memory>
#include "tensorflow/lite/interpreter.h"
#include "tensorflow/lite/kernels/register.h"
namespace tflite {
class FlatBufferModel {
 public:
  static std::unique_ptr<FlatBufferModel> BuildFromFile(const char* filename);
  ~FlatBufferModel();
  bool initialized() const;
};
class InterpreterBuilder {
 public:
  InterpreterBuilder(const FlatBufferModel& model,
                     const OpResolver& op_resolver);
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* interpreter);
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* interpreter,
                          int num_threads);
  TfLiteStatus SetNumThreads(int num_threads);
  InterpreterBuilder& AddDelegate(TfLiteDelegate* delegate);
};
}  // namespace tflite
#endif
