// Stand-in for the part of TensorFlow Lite /repo uses: a reference interpreter
// of float graphs made of the 16 operators the bundled lattice model has. It
// evaluates the real .tflite file.
#ifndef VERIF_STANDIN_TFLITE_INTERPRETER_H_
#define VERIF_STANDIN_TFLITE_INTERPRETER_H_
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "absl/strings/str_cat.h"
#include "tensorflow/lite/c/c_api_types.h"
#include "tensorflow/lite/kernels/register.h"
#include "tensorflow/lite/model_builder.h"
namespace tflite {
class Interpreter;
class SignatureRunner {
 public:
  TfLiteTensor* input_tensor(const char* name);         // nullptr if unknown
  const TfLiteTensor* output_tensor(const char* name) const;
  TfLiteStatus Invoke();
  Interpreter* owner = nullptr;
  std::map<std::string, int> inputs, outputs;
};
class Interpreter {
 public:
  TfLiteStatus AllocateTensors();
  TfLiteStatus ModifyGraphWithDelegate(TfLiteDelegate*);
  SignatureRunner* GetSignatureRunner(const char* key);  // nullptr if unknown
  struct Impl;
  std::shared_ptr<Impl> impl;
};
class InterpreterBuilder {
 public:
  InterpreterBuilder(const FlatBufferModel& model, const ops::builtin::BuiltinOpResolver&);
  TfLiteStatus SetNumThreads(int n);
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* out);
 private:
  const FlatBufferModel& model_;
};
}
#endif
