L = "logging.py"
HB = """    if not logger.handlers:
        handler = logging.StreamHandler()
        handler.setLevel(level)
        handler.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))
        logger.addHandler(handler)
    else:
        for handler in logger.handlers:
            handler.setLevel(level)
"""
NEW = """    handler = logging.StreamHandler()
    handler.setLevel(level)
    handler.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))
    logger.addHandler(handler)
"""
RES = """        name = self.level.upper()
        if name not in logging._nameToLevel:
            raise ValueError(f"unknown log level: {self.level}")
        return logging._nameToLevel[name]
"""
CASES = [
    ("noguard", "V", [(L, HB, NEW)]),
    ("oldlevel", "V", [(L, "    else:\n        for handler in logger.handlers:\n            handler.setLevel(level)\n", "")]),
    ("levelonce", "V", [(L, "    logger.setLevel(level)\n", ""), (L, "        logger.addHandler(handler)\n", "        logger.addHandler(handler)\n        logger.setLevel(level)\n")]),
    ("rawname", "V", [(L, "    logger = get_logger(name)\n", "    logger = logging.getLogger(name)\n")]),
    ("prefix", "V", [(L, 'name == "torchrir" or name.startswith("torchrir.")', 'name.startswith("torchrir")')]),
    ("noprefix", "V", [(L, '    return logging.getLogger(f"torchrir.{name}")', '    return logging.getLogger(name)')]),
    ("empty", "V", [(L, '        return logging.getLogger("torchrir")\n', '        return logging.getLogger(name)\n')]),
    ("emptyroot", "V", [(L, '    if not name:\n        return logging.getLogger("torchrir")\n', '    if name is None:\n        return logging.getLogger("torchrir")\n    if name == "":\n        return logging.getLogger()\n')]),
    ("dash", "V", [(L, 'f"torchrir.{name}"', 'f"torchrir-{name}"')]),
    ("fallback", "V", [(L, RES, "        return logging._nameToLevel.get(self.level.upper(), logging.INFO)\n")]),
    ("getattr", "V", [(L, RES, "        return getattr(logging, self.level.upper(), logging.INFO)\n")]),
    ("fallback2", "V", [(L, '            raise ValueError(f"unknown log level: {self.level}")\n', '            return logging.WARNING\n')]),
    ("basic", "V", [(L, "    logger.propagate = config.propagate\n", "    logger.propagate = config.propagate\n    logging.basicConfig(level=level)\n")]),
    ("root", "V", [(L, "    logger.propagate = config.propagate\n", "    logger.propagate = config.propagate\n    logging.getLogger().setLevel(level)\n")]),
    ("propdef", "V", [(L, "    propagate: bool = False", "    propagate: bool = True")]),
    ("nopropagate", "V", [(L, "    logger.propagate = config.propagate\n", "")]),
    ("propconst", "V", [(L, "logger.propagate = config.propagate", "logger.propagate = True")]),
    ("constlevel", "V", [(L, "        handler.setLevel(level)\n        handler.setFormatter", "        handler.setLevel(logging.INFO)\n        handler.setFormatter")]) if False else
    ("constlevel", "V", [(L, "        handler.setLevel(level)\n        handler.setFormatter", "        handler.setLevel(20)\n        handler.setFormatter")]),
    ("modlogger", "V", [("viz/animation.py", "logging.getLogger(__name__)", 'logging.getLogger("viz")')]),
    ("rootinfo", "V", [("viz/io.py", "    from .animation", "    logging.info('x')\n    from .animation")]) if False else
    ("rootinfo", "V", [("datasets/cmu_arctic.py", 'logger.info("Downloading %s", url)', 'logging.info("Downloading %s", url)')]),
    ("guardwrong", "V", [(L, "    if not logger.handlers:\n", "    if logger.handlers or not logger.disabled:\n")]),
    ("q-has", "Q", [(L, "if not logger.handlers:", "if not logger.hasHandlers():")]),
    ("q-len", "Q", [(L, "if not logger.handlers:", "if len(logger.handlers) == 0:")]),
    ("q-nohlevel", "Q", [(L, HB, "    if not logger.handlers:\n        handler = logging.StreamHandler()\n        handler.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))\n        logger.addHandler(handler)\n")]),
    ("q-clear", "Q", [(L, HB, "    for old in list(logger.handlers):\n        logger.removeHandler(old)\n" + NEW)]),
    ("q-clear2", "Q", [(L, HB, "    logger.handlers.clear()\n" + NEW)]),
    ("q-uniform", "Q", [(L, HB, "    if not logger.handlers:\n        handler = logging.StreamHandler()\n        handler.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))\n        logger.addHandler(handler)\n    for h in logger.handlers:\n        h.setLevel(level)\n")]),
    ("q-helper", "Q", [(L, HB, "    if logger.handlers:\n        for h in logger.handlers:\n            h.setLevel(level)\n        return logger\n    logger.addHandler(_make(config, level))\n"), (L, "def setup_logging", "def _make(config, level):\n    h = logging.StreamHandler()\n    h.setLevel(level)\n    h.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))\n    return h\n\n\ndef setup_logging")]),
    ("q-try", "Q", [(L, RES, "        try:\n            return logging._nameToLevel[self.level.upper()]\n        except KeyError:\n            raise ValueError(f'unknown log level: {self.level}') from None\n")]),
    ("q-get", "Q", [(L, RES, "        value = logging._nameToLevel.get(self.level.upper())\n        if value is None:\n            raise ValueError(f'unknown log level: {self.level}')\n        return value\n")]),
    ("q-mapping", "Q", [(L, RES, "        table = logging.getLevelNamesMapping()\n        name = self.level.upper()\n        if name in table:\n            return table[name]\n        raise ValueError(f'unknown log level: {self.level}')\n")]),
    ("q-levelname", "Q", [(L, RES, "        value = logging.getLevelName(self.level.upper())\n        if not isinstance(value, int):\n            raise ValueError(f'unknown log level: {self.level}')\n        return value\n")]),
    ("q-concat", "Q", [(L, 'f"torchrir.{name}"', '"torchrir." + name')]),
    ("q-base", "Q", [(L, '    if name == "torchrir" or name.startswith("torchrir."):\n        return logging.getLogger(name)\n    return logging.getLogger(f"torchrir.{name}")', '    inside = name == "torchrir" or name.startswith("torchrir.")\n    full = name if inside else f"torchrir.{name}"\n    return logging.getLogger(full)')]),
    ("q-child", "Q", [(L, '    return logging.getLogger(f"torchrir.{name}")', '    return logging.getLogger("torchrir").getChild(name)')]),
    ("q-const", "Q", [(L, '    if not name:\n        return logging.getLogger("torchrir")\n', '    base = "torchrir"\n    if not name:\n        return logging.getLogger(base)\n')]),
    ("v-stale", "V", [(L, "    logger.setLevel(level)\n    logger.propagate", "    if not logger.level or level > logger.level:\n        logger.setLevel(level)\n    logger.propagate")]),
    ("v-stale2", "V", [(L, "    logger.setLevel(level)\n    logger.propagate", "    if logger.level == logging.NOTSET:\n        logger.setLevel(level)\n    logger.propagate")]),
    ("v-stale3", "V", [(L, "    logger.setLevel(level)\n    logger.propagate", "    if not logger.isEnabledFor(level):\n        logger.setLevel(level)\n    logger.propagate")]),
    ("q-ifdiff", "Q", [(L, "    logger.setLevel(level)\n    logger.propagate", "    if logger.level != level:\n        logger.setLevel(level)\n    logger.propagate")]),
    ('b-root', 'V', [('logging.py', '    logger.setLevel(level)\n', '    logger.setLevel(level)\n    logging.getLogger().setLevel(level)\n')]),
    ('b-prefix', 'V', [('logging.py', 'name.startswith("torchrir.")', 'name.startswith("torchrir")')]),
    ('b-has', 'V', [('logging.py', '    if not logger.handlers:', '    if not logger.hasHandlers() or config.propagate:')]),
    ('b-lev', 'V', [('logging.py', '    else:\n        for handler in logger.handlers:\n            handler.setLevel(level)\n', '')]),
    ('b-get', 'V', [('logging.py', '        if name not in logging._nameToLevel:\n            raise ValueError(f"unknown log level: {self.level}")\n        return logging._nameToLevel[name]', '        return getattr(logging, name, logging.INFO)')]),
    ('b-empty', 'V', [('logging.py', '        return logging.getLogger("torchrir")\n', '        return logging.getLogger(name)\n')]),
]
