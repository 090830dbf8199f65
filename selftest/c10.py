R, S, F, I = "models/room.py", "models/scene.py", "config.py", "sim/simulators.py"
POS = '''    if not torch.all(torch.isfinite(pos)):
        raise ValueError(f"{name} positions must contain finite values")
'''
TRJ = '''    if not torch.all(torch.isfinite(traj)):
        raise ValueError(f"{name} must contain finite values")
'''
CASES = [
    ("fs-nan", "V", [(R, "if not (math.isfinite(self.fs) and self.fs > 0):", "if self.fs <= 0:")]),
    ("c-inf", "V", [(R, "if not (math.isfinite(self.c) and self.c > 0):", "if not self.c > 0:")]),
    ("c-zero", "V", [(R, "if not (math.isfinite(self.c) and self.c > 0):", "if not (math.isfinite(self.c) and self.c >= 0):")]),
    ("t60-nan", "V", [(R, "not self.t60 > 0:", "self.t60 <= 0:")]),
    ("t60-truth", "V", [(R, "if self.t60 is not None and not self.t60 > 0:", "if self.t60 and not self.t60 > 0:")]),
    ("both", "V", [(R, "if self.beta is not None and self.t60 is not None:", "if self.beta is not None and self.t60 and self.beta.ndim > 1:")]),
    ("size-all", "V", [(R, "if torch.any(size <= 0):", "if torch.all(size <= 0):")]),
    ("size-min-zero", "V", [(R, "if torch.any(size <= 0):", "if torch.any(size < 0):")]),
    ("size-finite-drop", "V", [(R, '''        if not torch.all(torch.isfinite(size)):
            raise ValueError("room size must contain finite values")
''', "")]),
    ("size-isnan", "V", [(R, "if not torch.all(torch.isfinite(size)):", "if torch.any(torch.isnan(size)):")]),
    ("beta-strict", "V", [(R, "torch.any(beta > 1):", "torch.any(beta >= 1):")]),
    ("beta-and", "V", [(R, "if torch.any(beta < 0) or torch.any(beta > 1):", "if torch.any((beta < 0) & (beta > 1)):")]),
    ("beta-count", "V", [(R, "if beta.numel() != expected:", "if beta.numel() < expected:")]),
    ("beta-count-2d", "V", [(R, "expected = 4 if size.numel() == 2 else 6", "expected = 6")]),
    ("beta-nan", "V", [(R, '''            if not torch.all(torch.isfinite(beta)):
                raise ValueError("beta must contain finite values")
''', "")]),
    ("dim", "V", [("util/tensor.py", "size.numel() not in (2, 3)", "size.numel() < 2")]),
    ("pos-nan", "V", [(R, POS, "")]),
    ("pos-mean", "V", [(R, "if not torch.all(torch.isfinite(pos)):", "if not torch.isfinite(pos).any():")]),
    ("pos-dim", "V", [(R, "pos.shape[1] not in (2, 3)", "pos.shape[1] < 2")]),
    ("mic-skip", "V", [(R, 'pos = _normalize_entity_positions(self.positions, name="mic")', "pos = as_float_tensor(self.positions)")]),
    ("ori-after", "V", [(R, '''    if not torch.all(torch.isfinite(orientation)):
        raise ValueError(f"{name} orientation must contain finite values")

    if dim == 2:
''', '''    if dim == 2:
'''), (R, '''            raise ValueError(
                f"{name} orientation for 3D must be a 3D vector or (azimuth, elevation)"
            )
''', '''            raise ValueError(
                f"{name} orientation for 3D must be a 3D vector or (azimuth, elevation)"
            )
        if not torch.all(torch.isfinite(orientation)):
            raise ValueError(f"{name} orientation must contain finite values")
''')]),
    ("ori-count", "V", [(R, "if orientation.shape[0] != n_entities or orientation.shape[1] not in (2, 3):", "if orientation.shape[1] not in (2, 3):")]),
    ("ori-numel", "V", [(R, "            if orientation.numel() in (2, 3):", "            if orientation.numel() in (2, 3, n_entities + 2):")]),
    ("replace-bypass", "V", [(R, '''        """Return a new Room with updated fields."""
        return replace(self, **kwargs)''', '''        """Return a new Room with updated fields."""
        new = copy.copy(self)
        for key, value in kwargs.items():
            object.__setattr__(new, key, value)
        return new'''), (R, "import math\n", "import copy\nimport math\n")]),
    ("cfg-replace", "V", [(F, "        new_cfg.validate()\n        return new_cfg", "        return new_cfg")]),
    ("cfg-replace-self", "V", [(F, "        new_cfg.validate()\n        return new_cfg", "        self.validate()\n        return new_cfg")]),
    ("cfg-even", "V", [(F, "if self.frac_delay_length <= 0 or self.frac_delay_length % 2 == 0:", "if self.frac_delay_length <= 0:")]),
    ("cfg-seed", "V", [(F, "if self.seed is not None and self.seed < 0:", "if self.seed and self.seed < -1:")]),
    ("cfg-order", "V", [(F, "self.max_order < 0:", "self.max_order <= 0:")]),
    ("cfg-chunk", "V", [(F, "if self.accumulate_chunk_size <= 0:", "if self.image_chunk_size <= 0:")]),
    ("cfg-tmax-nan", "V", [(F, "if self.tmax is not None and not self.tmax > 0:", "if self.tmax is not None and self.tmax <= 0:")]),
    ("cfg-n", "V", [(F, '''int(self.rir_hpf_kwargs["n"]) <= 0''', '''int(self.rir_hpf_kwargs["n"]) < 0''')]),
    ("sim-tmax", "V", [(I, "if self.tmax is not None and not self.tmax > 0:", "if self.tmax is not None and self.tmax < 0:")]),
    ("sim-tmax-nsample", "V", [(I, "if self.tmax is not None and not self.tmax > 0:", "if self.nsample is None and not self.tmax > 0:")]),
    ("sim-nsample-tmax", "V", [(I, "if self.nsample is not None and self.nsample <= 0:", "if self.tmax is None and self.nsample <= 0:")]),
    ("cfg-tmax-fs", "V", [(F, "if self.tmax is not None and not self.tmax > 0:", "if self.tmax is not None and self.fs is not None and not self.tmax > 0:")]),
    ("cfg-even-lut", "V", [(F, "if self.frac_delay_length <= 0 or self.frac_delay_length % 2 == 0:", "if self.frac_delay_length <= 0 or (self.use_lut and self.frac_delay_length % 2 == 0):")]),
    ("q-fc-enabled", "V", [(F, "if not self.rir_hpf_fc > 0:", "if self.rir_hpf_enable and not self.rir_hpf_fc > 0:")]),
    ("sim-none", "V", [(I, "if self.tmax is None and self.nsample is None:", "if self.tmax is None and self.nsample is None and self.max_order > 0:")]),
    ("sim-order", "V", [(I, "if self.max_order < 0:", "if self.max_order < -1:")]),
    ("scene-traj-steps", "V", [(S, '''        t_mic = _validate_traj(self.mic_traj, n_mic, dim, "mic_traj")
        if t_src != t_mic:
            raise ValueError("src_traj and mic_traj must have matching time steps")


@dataclass(frozen=True)
class Scene:''', '''        t_mic = _validate_traj(self.mic_traj, n_mic, dim, "mic_traj")
        if t_src < t_mic:
            raise ValueError("src_traj and mic_traj must have matching time steps")


@dataclass(frozen=True)
class Scene:''')]),
    ("scene-traj-nan", "V", [(S, TRJ, "")]),
    ("scene-count", "V", [(S, "if traj.shape[1] != count or traj.shape[2] != dim:", "if traj.shape[2] != dim:")]),
    ("scene-count-mix", "V", [(S, '''        t_mic = _validate_traj(self.mic_traj, n_mic, dim, "mic_traj")
        if t_src != t_mic:
            raise ValueError("src_traj and mic_traj must have matching time steps")


@dataclass(frozen=True)
class Scene:''', '''        t_mic = _validate_traj(self.mic_traj, n_src, dim, "mic_traj")
        if t_src != t_mic:
            raise ValueError("src_traj and mic_traj must have matching time steps")


@dataclass(frozen=True)
class Scene:''')]),
    ("scene-2d-count", "V", [(S, '''        if count != 1:
            raise ValueError(f"{name} must have shape (T, {count}, {dim})")
''', "")]),
    ("scene-micdim", "V", [(S, '''    if mics.positions.shape[1] != dim:
        raise ValueError("mic position dimension must match room dimension")
''', "")]),
    ("scene-one", "V", [(S, "if has_src != has_mic:", "if has_mic and not has_src:")]),
    ("static-postinit", "V", [(S, '''    def __post_init__(self) -> None:
        _validate_scene_entities(self.room, self.sources, self.mics)

    def is_dynamic(self) -> bool:
        return False''', '''    def is_dynamic(self) -> bool:
        return False''')]),
    ("unfrozen", "V", [(S, '''@dataclass(frozen=True)
class StaticScene:''', '''@dataclass
class StaticScene:''')]),
    ("unfrozen-cfg", "V", [(F, "@dataclass(frozen=True)", "@dataclass(frozen=False)")]),
    ("write-later", "V", [(R, '''    def replace(self, **kwargs) -> "Room":''', '''    def move(self, c):
        object.__setattr__(self, "c", c)

    def replace(self, **kwargs) -> "Room":''')]),
    # ---- quiet
    ("q-helper", "Q", [(R, '''        if not (math.isfinite(self.fs) and self.fs > 0):
            raise ValueError("fs must be positive")
        if not (math.isfinite(self.c) and self.c > 0):
            raise ValueError("c must be positive")
''', '''        _check_positive("fs", self.fs)
        _check_positive("c", self.c)
'''), (R, '''def _validate_orientation(
''', '''def _check_positive(name, value):
    ok = math.isfinite(value) and value > 0
    if not ok:
        raise ValueError(f"{name} must be positive")


def _validate_orientation(
''')]),
    ("q-loop", "Q", [(R, '''        if not (math.isfinite(self.fs) and self.fs > 0):
            raise ValueError("fs must be positive")
        if not (math.isfinite(self.c) and self.c > 0):
            raise ValueError("c must be positive")
''', '''        for name in ("fs", "c"):
            value = getattr(self, name)
            if not math.isfinite(value) or value <= 0:
                raise ValueError(f"{name} must be positive")
''')]),
    ("q-min", "Q", [(R, "if torch.any(size <= 0):", "if size.min() <= 0:")]),
    ("q-allpos", "Q", [(R, "if torch.any(size <= 0):", "if not (size > 0).all():")]),
    ("q-beta-one", "Q", [(R, '''            if not torch.all(torch.isfinite(beta)):
                raise ValueError("beta must contain finite values")
            if torch.any(beta < 0) or torch.any(beta > 1):
                raise ValueError("beta values must be in [0, 1]")
''', '''            if not torch.all((beta >= 0) & (beta <= 1)):
                raise ValueError("beta values must be in [0, 1]")
''')]),
    ("q-beta-minmax", "Q", [(R, "if torch.any(beta < 0) or torch.any(beta > 1):", "if beta.min() < 0 or beta.max() > 1:")]),
    ("q-elements", "Q", [(R, '''            if torch.any(beta < 0) or torch.any(beta > 1):
                raise ValueError("beta values must be in [0, 1]")
''', '''            for b in beta.tolist():
                if b < 0 or b > 1:
                    raise ValueError("beta values must be in [0, 1]")
''')]),
    ("q-expected-dict", "Q", [(R, "expected = 4 if size.numel() == 2 else 6", "expected = {2: 4, 3: 6}[size.numel()]")]),
    ("q-expected-2n", "Q", [(R, "expected = 4 if size.numel() == 2 else 6", "expected = 2 * size.numel()")]),
    ("q-merge", "Q", [(R, '''    if pos.ndim != 2 or pos.shape[1] not in (2, 3):
        raise ValueError(f"{name} positions must have shape (n, 2) or (n, 3)")
''' + POS, POS + '''    n_dims = pos.shape[-1]
    if pos.ndim != 2 or (n_dims != 2 and n_dims != 3):
        raise ValueError(f"{name} positions must have shape (n, 2) or (n, 3)")
''')]),
    ("q-typeself", "Q", [(R, '''        """Return a new Room with updated fields."""
        return replace(self, **kwargs)''', '''        """Return a new Room with updated fields."""
        fields = {"size": self.size, "fs": self.fs, "c": self.c, "beta": self.beta, "t60": self.t60}
        fields.update(kwargs)
        return type(self)(**fields)''')]),
    ("q-cfg-loop", "Q", [(F, '''        if self.sinc_lut_granularity <= 0:
            raise ValueError("sinc_lut_granularity must be positive")
        if self.image_chunk_size <= 0:
            raise ValueError("image_chunk_size must be positive")
        if self.accumulate_chunk_size <= 0:
            raise ValueError("accumulate_chunk_size must be positive")
''', '''        for name in ("sinc_lut_granularity", "image_chunk_size", "accumulate_chunk_size"):
            if getattr(self, name) < 1:
                raise ValueError(f"{name} must be positive")
''')]),
    ("q-cfg-list", "Q", [(F, '''        if self.sinc_lut_granularity <= 0:
            raise ValueError("sinc_lut_granularity must be positive")
        if self.image_chunk_size <= 0:
            raise ValueError("image_chunk_size must be positive")
''', '''        problems = []
        if self.sinc_lut_granularity <= 0:
            problems.append("sinc_lut_granularity must be positive")
        if self.image_chunk_size <= 0:
            problems.append("image_chunk_size must be positive")
        if problems:
            raise ValueError("; ".join(problems))
''')]),
    ("q-odd", "Q", [(F, "self.frac_delay_length % 2 == 0:", "not self.frac_delay_length & 1:")]),
    ("q-odd2", "Q", [(F, "self.frac_delay_length <= 0 or self.frac_delay_length % 2 == 0:", "not (self.frac_delay_length > 0 and self.frac_delay_length % 2):")]),
    ("q-traj", "Q", [(S, '''    if traj.ndim == 2:
        if count != 1:
            raise ValueError(f"{name} must have shape (T, {count}, {dim})")
        if traj.shape[1] != dim:
            raise ValueError(f"{name} must have shape (T, {dim}) for single entity")
        return int(traj.shape[0])
    if traj.ndim == 3:
        if traj.shape[1] != count or traj.shape[2] != dim:
            raise ValueError(f"{name} must have shape (T, {count}, {dim})")
        return int(traj.shape[0])
''', '''    if traj.ndim == 2 and count == 1:
        traj = traj.unsqueeze(1)
    if traj.ndim == 3 and tuple(traj.shape[1:]) == (count, dim):
        return int(traj.shape[0])
''')]),
    ("q-scene-shared", "Q", [(S, '''        dim = int(self.room.size.numel())
        n_src = int(self.sources.positions.shape[0])
        n_mic = int(self.mics.positions.shape[0])
        t_src = _validate_traj(self.src_traj, n_src, dim, "src_traj")
        t_mic = _validate_traj(self.mic_traj, n_mic, dim, "mic_traj")
        if t_src != t_mic:
            raise ValueError("src_traj and mic_traj must have matching time steps")


@dataclass(frozen=True)
class Scene:''', '''        dim = int(self.room.size.numel())
        steps = {
            _validate_traj(traj, entity.positions.shape[0], dim, name)
            for traj, entity, name in (
                (self.src_traj, self.sources, "src_traj"),
                (self.mic_traj, self.mics, "mic_traj"),
            )
        }
        if len(steps) != 1:
            raise ValueError("src_traj and mic_traj must have matching time steps")


@dataclass(frozen=True)
class Scene:''')]),
    ("q-sim-order", "Q", [(I, '''        if self.tmax is None and self.nsample is None:
            raise ValueError("tmax or nsample must be provided")
        if self.tmax is not None and not self.tmax > 0:
            raise ValueError("tmax must be positive")
''', '''        if self.tmax is not None:
            if not (self.tmax > 0):
                raise ValueError("tmax must be positive")
        elif self.nsample is None:
            raise ValueError("tmax or nsample must be provided")
''')]),
    ("q-post-helper", "Q", [(R, '''            object.__setattr__(self, "beta", beta)
''', '''            self._store("beta", beta)
'''), (R, '''    def replace(self, **kwargs) -> "Room":''', '''    def _store(self, name, value):
        object.__setattr__(self, name, value)

    def replace(self, **kwargs) -> "Room":''')]),
]
