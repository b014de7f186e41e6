// Declarations only; see README.md.
#ifndef VERIF_STUB_TFLITE_REGISTER_H
#define VERIF_STUB_TFLITE_REGISTER_H
namespace tflite {
class OpResolver {
 public:
  virtual ~OpResolver();
};
namespace ops {
namespace builtin {
class BuiltinOpResolver : public OpResolver {
 public:
  BuiltinOpResolver();
};
}  // namespace builtin
}  // namespace ops
}  // namespace tflite
#endif
