CONSTANTS Side = 2
N = 3
Tops = 5
Variant = "ok"
SPECIFICATION Spec
INVARIANTS EcdfRule Mono MonoK Ordered NNPairs Emit
