H = "sim/ism/hpf.py"
V = "viz/scene.py"
U = "viz/utils.py"
CASES = [
    ("scipytop", "V", [(H, "import numpy as np\n", "import numpy as np\nfrom scipy.signal import iirfilter\n")]),
    ("trytop", "V", [(H, "import numpy as np\n", "import numpy as np\ntry:\n    import scipy.signal as _ss\nexcept ImportError:\n    _ss = None\n")]),
    ("plttop", "V", [(V, "import torch\n", "import torch\nimport matplotlib.pyplot as plt\n")]),
    ("pltalias", "V", [(V, "import torch\n", "import torch\nfrom matplotlib import pyplot as plt\n")]),
    ("findspec", "V", [(U, "import torch\n", "import torch\nimport importlib.util\nif importlib.util.find_spec('matplotlib'):\n    import matplotlib\n")]),
    ("dynimp", "V", [(U, "import torch\n", "import torch\nimport importlib\n_plt = importlib.import_module('matplotlib.pyplot')\n")]),
    ("classbody", "V", [("models/results.py", "class RIRResult:\n", "class RIRResult:\n    import scipy as _scipy\n")]),
    ("viafunc", "V", [(U, "def ", "def _setup_style_once():\n    import matplotlib\n    return matplotlib\n\n\n_STYLE = _setup_style_once()\n\n\ndef ")]),
    ("basic", "V", [("logging.py", "\n\n@dataclass", "\nlogging.basicConfig(level=logging.INFO)\n\n\n@dataclass")]),
    ("setlevel", "V", [("viz/animation.py", "LOGGER = logging.getLogger(__name__)\n", "LOGGER = logging.getLogger(__name__)\nLOGGER.setLevel(logging.WARNING)\n")]),
    ("propag", "V", [("viz/animation.py", "LOGGER = logging.getLogger(__name__)\n", "LOGGER = logging.getLogger(__name__)\nLOGGER.propagate = False\n")]),
    ("setup", "V", [("__init__.py", "from . import io\n", "from . import io\nfrom .logging import LoggingConfig, setup_logging\nsetup_logging(LoggingConfig())\n")]),
    ("manualseed", "V", [("sim/ism/diffuse.py", "import torch\n", "import torch\n\ntorch.manual_seed(0)\n")]),
    ("npseed", "V", [("datasets/dynamic_cmu_arctic.py", 'LOGGER = ', 'np.random.seed(0)\nLOGGER = ')]),
    ("dtype", "V", [("config.py", "import torch\n", "import torch\ntorch.set_default_dtype(torch.float32)\n")]),
    ("mkdir", "V", [("datasets/dynamic_cmu_arctic.py", 'LOGGER = ', 'DEFAULT_OUT = Path("outputs")\nDEFAULT_OUT.mkdir(exist_ok=True)\nLOGGER = ')]),
    ("readfile", "V", [("datasets/attribution.py", "from __future__ import annotations\n", "from __future__ import annotations\nfrom pathlib import Path\n_LICENSES = (Path(__file__).parent / 'l.txt').read_text()\n")]),
    ("openfile", "V", [("datasets/attribution.py", "from __future__ import annotations\n", "from __future__ import annotations\n_T = open(__file__).read()\n")]),
    ("environ", "V", [(U, "import torch\n", "import torch\nimport os\nos.environ['MPLBACKEND'] = 'Agg'\n")]),
    ("warnf", "V", [("config.py", "import torch\n", "import torch\nimport warnings\nwarnings.simplefilter('ignore')\n")]),
    ("default", "V", [("geometry/sampling.py", "def sample_positions(", "def _r(x=random.random()):\n    return x\n\n\ndef sample_positions(")]),
    ("allname", "V", [("logging.py", '__all__ = ["LoggingConfig",', '__all__ = ["LoggingConfig", "reset_logging",')]),
    ("allgone", "V", [("viz/__init__.py", '__all__ = [', '__all__ = [\n    "save_scene_html",')]),
    ("experimental", "V", [("sim/__init__.py", "from __future__ import annotations\n", "from __future__ import annotations\nfrom ..experimental import RayTracingSimulator\n")]) if False else
    ("experimental", "V", [("sim/simulators.py", "import torch\n", "import torch\nfrom ..experimental import simulators as _exp\n")]),
    ("explazy", "V", [("sim/simulators.py", "import torch\n", "import torch\n\n\ndef _fdtd():\n    from torchrir.experimental import FDTDSimulator\n    return FDTDSimulator\n")]),
    ("cycle", "V", [("models/room.py", "import torch\n", "import torch\nfrom ..datasets import CmuArcticDataset\n")]),
    ("order", "V", [("config.py", "import torch\n", "import torch\n\nDEFAULT = SimulationConfig()\n")]),
    ("q-lazy", "Q", [(H, "        from scipy.signal import iirfilter\n", "        import scipy.signal\n        iirfilter = scipy.signal.iirfilter\n")]),
    ("q-null", "Q", [("__init__.py", "from . import io\n", "import logging as _logging\nfrom . import io\n_logging.getLogger('torchrir').addHandler(_logging.NullHandler())\n")]),
    ("q-typechecking", "Q", [(V, "import torch\n", "import torch\nfrom typing import TYPE_CHECKING\nif TYPE_CHECKING:\n    import matplotlib.pyplot as plt\n")]),
    ("q-rng", "Q", [("geometry/sampling.py", "import torch\n", "import torch\n_RNG = random.Random(0)\n")]),
    ("q-path", "Q", [("datasets/attribution.py", "from __future__ import annotations\n", "from __future__ import annotations\nfrom pathlib import Path\n_HERE = Path(__file__).resolve().parent / 'x'\n")]),
    ("q-helper", "Q", [("datasets/attribution.py", "from __future__ import annotations\n", "from __future__ import annotations\ndef _table():\n    return {k: v.upper() for k, v in zip('ab', 'cd')}\n_T = _table()\n")]),
    ("q-main", "Q", [("logging.py", '__all__ = ["LoggingConfig"', 'if __name__ == "__main__":\n    logging.basicConfig()\n\n__all__ = ["LoggingConfig"')]),
    ("q-allplus", "Q", [("logging.py", '__all__ = ["LoggingConfig", "get_logger", "setup_logging"]', '__all__ = ["LoggingConfig"] + ["get_logger"]\n__all__ += ["setup_logging"]')]),
    ("q-funccycle", "Q", [("models/room.py", "import torch\n", "import torch\n\n\ndef _ds():\n    from ..datasets import CmuArcticDataset\n    return CmuArcticDataset\n")]),
    ("q-getattr", "Q", [("viz/__init__.py", "__all__ = [", "def __getattr__(name):\n    if name == 'lazy_thing':\n        return 1\n    raise AttributeError(name)\n\n\n__all__ = [\n    'lazy_thing',")]),
    ("q-split", "Q", [("config.py", "import torch\n", "import torch as torch\n")]),
]
