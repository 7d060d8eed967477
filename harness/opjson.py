"""Builders for the JSON description of nodes, operators and networks."""
import numpy as np


def tensor(values=None, shape=None, dtype="INT8", name=None):
    a = None if values is None else np.asarray(values)
    return {"tensor": None if a is None else a.tolist(),
            "shape": list(shape if shape is not None else (a.shape if a is not None else [])),
            "dtype": dtype, "name": name}


def node(scale=None, zp=None, values=None, dtype="INT8", shape=None, lut=None, name=None):
    return {"tensor": tensor(values, shape, dtype, name), "zero_point": zp, "scale": scale, "LUT": lut}


def op(op_type, name, inputs, outputs, attributes=None):
    return {"op_type": op_type, "name": name, "inputs": inputs, "outputs": outputs,
            "description": None, "attributes": attributes}


def net(engine, ops, input_node=None, output_node=None):
    return {"ir_version": "1", "engine": engine, "generated_at": None, "operators": len(ops), "graph": ops,
            "input": [input_node if input_node is not None else (ops[0]["inputs"][0] if ops and ops[0]["inputs"] else node(1.0, 0))],
            "output": [output_node if output_node is not None else (ops[-1]["outputs"][0] if ops and ops[-1]["outputs"] else node(1.0, 0))]}


def lut_json(codes, offset, reduced=None):
    return {"LUT": [int(c) for c in codes], "offset": int(offset), "reduced_LUT": reduced}
