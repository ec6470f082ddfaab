#ifndef VERIF_STANDIN_TFLITE_REGISTER_H_
#define VERIF_STANDIN_TFLITE_REGISTER_H_
namespace tflite { namespace ops { namespace builtin {
class BuiltinOpResolver {};
}}}
#endif
