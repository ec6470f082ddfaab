#ifndef VERIF_STANDIN_TFLITE_MODEL_BUILDER_H_
#define VERIF_STANDIN_TFLITE_MODEL_BUILDER_H_
#include <memory>
#include <string>
#include "tensorflow/lite/c/c_api_types.h"
namespace tflite {
class FlatBufferModel {
 public:
  // nullptr when the file cannot be read or is not a TFLite flatbuffer.
  static std::unique_ptr<FlatBufferModel> BuildFromFile(const char* path);
  std::string bytes;
};
}
#endif
