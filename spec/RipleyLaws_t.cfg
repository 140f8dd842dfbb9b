CONSTANTS Side = 2
N = 4
Tops = 6
Variant = "ok"
SPECIFICATION Spec
INVARIANTS EcdfRule Mono MonoK Ordered NNPairs Emit
