R, S, A, AC, O, D, SA, P = "models/room.py", "models/scene.py", "geometry/arrays.py", "util/acoustics.py", "util/orientation.py", "util/device.py", "geometry/sampling.py", "sim/ism/prepare.py"
CASES = [
    ("room-size", "V", [(R, "size = as_float_tensor(ensure_dim(self.size))", "size = ensure_dim(self.size)")]),
    ("positions", "V", [(R, "pos = as_float_tensor(positions)", "pos = torch.as_tensor(positions)")]),
    ("orientation", "V", [(R, "ori = as_float_tensor(orientation)", "ori = torch.as_tensor(orientation)")]),
    ("traj", "V", [(S, "mic_traj = as_float_tensor(self.mic_traj)", "mic_traj = torch.as_tensor(self.mic_traj)")]),
    ("binaural", "V", [(A, "    center_t = as_float_tensor(center, device=device, dtype=dtype)\n    dim = center_t.numel()\n    offset_vec", "    center_t = as_tensor(center, device=device, dtype=dtype)\n    dim = center_t.numel()\n    offset_vec")]),
    ("circular", "V", [(A, "    center_t = as_float_tensor(center, device=device, dtype=dtype)\n    dim = center_t.numel()\n\n    angles", "    center_t = as_tensor(center, device=device, dtype=dtype)\n    dim = center_t.numel()\n\n    angles")]),
    ("beta-int", "V", [(AC, "    size = as_float_tensor(size, device=device, dtype=dtype)\n", "    size = torch.as_tensor(size, device=device, dtype=dtype)\n")]),
    ("normalize", "V", [(O, "    orientation = as_float_tensor(orientation)\n", "")]),
    ("infer-any", "V", [(D, "if tensor_dtype is None and value.is_floating_point():", "if tensor_dtype is None:")]),
    ("helper-off", "V", [("util/tensor.py", "return out if out.is_floating_point() else out.to(torch.get_default_dtype())", "return out")]),
    ("helper-list", "V", [("util/tensor.py", "    return out if out.is_floating_point() else out.to(torch.get_default_dtype())", "    if not torch.is_tensor(value):\n        return out\n    return out if out.is_floating_point() else out.to(torch.get_default_dtype())")]),
    ("clamp", "V", [(SA, "room_size = as_float_tensor(room_size)", "room_size = torch.as_tensor(room_size)")]),
    ("size-back", "V", [(P, "    room_size = as_tensor(room.size, device=device, dtype=dtype)", "    room_size = as_tensor(room.size, device=device, dtype=dtype).to(mics.dtype if torch.is_tensor(mics) else dtype)")]),
    ("clamp-back", "V", [(SA, "return torch.max(torch.min(positions, max_v), min_v)", "return torch.max(torch.min(positions, max_v), min_v).to(positions.dtype)")]),
    # behaviour kept
    ("q-float", "Q", [("util/tensor.py", "return out if out.is_floating_point() else out.to(torch.get_default_dtype())", "if not out.is_floating_point():\n        out = out.to(torch.get_default_dtype())\n    return out")]),
    ("q-float2", "Q", [("util/tensor.py", "return out if out.is_floating_point() else out.to(torch.get_default_dtype())", "return out if out.is_floating_point() else out.float()")]),
    ("q-promote", "Q", [(R, "pos = as_float_tensor(positions)", "pos = torch.as_tensor(positions)\n    if not torch.is_floating_point(pos):\n        pos = pos.to(torch.get_default_dtype())")]),
    ("q-norm", "Q", [(O, "    orientation = as_float_tensor(orientation)\n", "    if not orientation.is_floating_point():\n        orientation = orientation.float()\n")]),
    ("q-infer", "Q", [(D, "if tensor_dtype is None and value.is_floating_point():\n                    tensor_dtype = value.dtype", "if value.is_floating_point() and not tensor_dtype:\n                    tensor_dtype = value.dtype")]),
    ("q-binaural", "Q", [(A, "    offset_vec = torch.zeros((dim,), device=center_t.device, dtype=center_t.dtype)\n    offset_vec[0] = offset\n", "    offset_vec = torch.zeros_like(center_t)\n    offset_vec[0] += offset\n")]),
    ("q-traj", "Q", [("geometry/trajectories.py", "    return torch.stack(", "    span = end - start\n    return torch.stack("), ("geometry/trajectories.py", "(end - start) * t / last", "span * (t / last)")]),
    ("q-float-as", "Q", [("util/tensor.py", "return out if out.is_floating_point() else out.to(torch.get_default_dtype())", "return out if out.is_floating_point() else out.to(torch.float32)")]),
]
