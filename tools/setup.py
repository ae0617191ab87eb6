"""setup_cmd: build the prover"""
import p_num
print(p_num.build_engine())
