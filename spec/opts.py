"""Reference snippets of the options."""
from pypsa._options import InvalidOptionError, Option, OptionsNode, options


def parent(node, parts):
    """the category that holds the option"""
    for part in parts[:-1]:
        if part not in node._children or not isinstance(node._children[part], OptionsNode):
            raise InvalidOptionError(option_path=part)
        node = node._children[part]
    return node


def get_option(self, path):
    parts = path.split(".")
    node = parent(self, parts)
    leaf = parts[-1]
    if leaf not in node._children or isinstance(node._children[leaf], OptionsNode):
        raise InvalidOptionError(option_path=leaf)
    return node._children[leaf].value


def set_option(self, path, value):
    parts = path.split(".")
    node = parent(self, parts)
    leaf = parts[-1]
    if leaf not in node._children or isinstance(node._children[leaf], OptionsNode):
        raise InvalidOptionError(option_path=leaf)
    node._children[leaf].value = value


def getattr_(self, name):
    if name not in self._children:
        raise InvalidOptionError(option_path=name)
    child = self._children[name]
    return child.value if isinstance(child, Option) else child


def setattr_(self, name, value):
    if name.startswith("_"):
        object.__setattr__(self, name, value)
        return
    if name not in self._children:
        raise InvalidOptionError(option_path=name)
    child = self._children[name]
    if isinstance(child, OptionsNode):
        raise InvalidOptionError("category")
    child.value = value


def add_option(self, path, default=None, docs=""):
    parts = path.split(".")
    node = self
    for part in parts[:-1]:
        if part not in node._children:
            node._children[part] = OptionsNode(part)
        elif not isinstance(node._children[part], OptionsNode):
            raise ValueError("an option is in the way")
        node = node._children[part]
    leaf = parts[-1]
    if leaf in node._children and isinstance(node._children[leaf], OptionsNode):
        raise ValueError("a category is in the way")
    node._children[leaf] = Option(default, default, docs)


def reset_all(self):
    for child in self._children.values():
        if isinstance(child, Option):
            child.reset()
        else:
            child.reset_all()


def reset(self):
    self._value = self._default


def set_value(self, value):
    self._value = value


def construct(self, value=None, default=None, docs=""):
    self._value = default if value is None else value
    self._default = default
    self._docs = docs


def context(*args):
    """the given values inside, what was there before outside again"""
    if len(args) % 2 != 0:
        raise ValueError("pairs")
    pairs = [(args[i], args[i + 1]) for i in range(0, len(args), 2)]
    before = {}
    try:
        for name, value in pairs:
            before.setdefault(name, options.get_option(name))
            options.set_option(name, value)
        yield
    finally:
        for name, value in before.items():
            options.set_option(name, value)
