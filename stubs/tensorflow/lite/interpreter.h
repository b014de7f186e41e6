// Declarations only; see README.md.
#ifndef VERIF_STUB_TFLITE_INTERPRETER_H
#define VERIF_STUB_TFLITE_INTERPRETER_H
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "tensorflow/lite/c/c_api_types.h"
namespace tflite {
class SignatureRunner {
 public:
  TfLiteTensor* input_tensor(const char* input_name);
  const TfLiteTensor* output_tensor(const char* output_name) const;
  size_t input_size() const;
  size_t output_size() const;
  TfLiteStatus AllocateTensors();
  TfLiteStatus Invoke();
};
class Interpreter {
 public:
  ~Interpreter();
  Interpreter(const Interpreter&) = delete;
  Interpreter& operator=(const Interpreter&) = delete;
  SignatureRunner* GetSignatureRunner(const char* signature_key);
  TfLiteStatus AllocateTensors();
  TfLiteStatus Invoke();
  TfLiteStatus SetNumThreads(int num_threads);
  TfLiteStatus ModifyGraphWithDelegate(TfLiteDelegate* delegate);
  TfLiteStatus ModifyGraphWithDelegate(
      std::unique_ptr<TfLiteDelegate, std::function<void(TfLiteDelegate*)>>
          delegate);
  TfLiteTensor* tensor(int tensor_index);
  const std::vector<int>& inputs() const;
  const std::vector<int>& outputs() const;
};
}  // namespace tflite
#endif
