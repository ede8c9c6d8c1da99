"""A simulated accelerator: values computed on the host, placement rules of a device.

Tensors on it hold ordinary host tensors, so every value is exact, but no operation may mix
devices, host data has to be moved explicitly, and any operation that allocates on it may be
told to run out of memory.  ml4gw's own code runs unmodified against it.
"""
import sys
import types

import torch
from torch.utils._python_dispatch import TorchDispatchMode, return_and_correct_aliasing
from torch.utils._pytree import tree_flatten, tree_map

DEV = torch.device("cuda", 0)
aten = torch.ops.aten
current = None


class Accel(torch.Tensor):
    @staticmethod
    def __new__(cls, elem):
        t = torch.Tensor._make_wrapper_subclass(cls, elem.size(), strides=elem.stride(), storage_offset=elem.storage_offset(),
                                                dtype=elem.dtype, layout=elem.layout, device=DEV, requires_grad=False)
        t.elem = elem
        return t

    def __repr__(self, **_):
        return f"Accel({self.elem!r})"

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        with torch.no_grad():
            new = Accel(self.elem.detach().clone())
        if isinstance(self, torch.nn.Parameter):
            new = torch.nn.Parameter(new, self.requires_grad)
        elif self.requires_grad:
            new.requires_grad_(True)
        memo[id(self)] = new
        return new

    def __reduce_ex__(self, proto):
        return restore, (self.elem.detach(), isinstance(self, torch.nn.Parameter), self.requires_grad)


def restore(elem, param, grad):
    """Unpickle: onto the device, or to the host when it is not there."""
    t = Accel(elem) if current is not None and not current.gone else elem
    return torch.nn.Parameter(t, grad) if param else t.requires_grad_(grad) if grad else t


def is_dev(d):
    return d is not None and torch.device(d).type == DEV.type


def unwrap(x):
    return x.elem if isinstance(x, Accel) else x


def wrap(x):
    return Accel(x) if isinstance(x, torch.Tensor) and not isinstance(x, Accel) else x


# no lazily conjugated views below this level
EAGER = {aten._conj.default: aten._conj_physical.default, aten._neg_view.default: aten.neg.default}
INDEXED = {"aten::index", "aten::index_put", "aten::index_put_", "aten::_index_put_impl_", "aten::_unsafe_index"}


def dispatch(func, args, kwargs):
    name = func._schema.name
    flat = [x for x in tree_flatten((args, kwargs))[0] if isinstance(x, torch.Tensor)]
    dev = [t for t in flat if isinstance(t, Accel)]
    host = [t for t in flat if not isinstance(t, Accel)]
    target = kwargs.get("device")
    if current is not None:
        current.ops += 1
    if name in ("aten::copy_", "aten::_to_copy"):
        out_dev = isinstance(args[0], Accel) if name == "aten::copy_" or target is None else is_dev(target)
        if current is not None and name == "aten::_to_copy" and out_dev != isinstance(args[0], Accel):
            current.transfers += 1
    else:
        if dev and host:
            if name in INDEXED:
                bad = not isinstance(args[0], Accel) or any(t.dim() for t in host if not any(t is i for i in args[1] if i is not None))
            else:
                bad = any(t.dim() for t in host) or torch.Tag.pointwise not in func.tags and name != "aten::fill_" or not any(t.dim() for t in dev) and name.endswith("_") and not isinstance(args[0], Accel)
            if bad:
                raise RuntimeError(f"Expected all tensors to be on the same device, but found at least two devices, {DEV} and cpu! ({name})")
        out_dev = bool(dev) if target is None else is_dev(target)
        if target is not None and dev and not is_dev(target) and name not in LIKE:
            out_dev = False
    if target is not None:
        kwargs = dict(kwargs, device=torch.device("cpu"))
        kwargs.pop("pin_memory", None)
    if out_dev and current is not None:
        current.allocate(func)
    func2 = EAGER.get(func, func)
    with torch._C._DisableTorchDispatch():
        out = func2(*tree_map(unwrap, args), **tree_map(unwrap, kwargs))
    if not out_dev:
        return out
    if name == "aten::_local_scalar_dense":
        return out
    out = tree_map(wrap, out)
    return return_and_correct_aliasing(func, args, kwargs, out) if dev and func2 is func else out


LIKE = {"aten::zeros_like", "aten::ones_like", "aten::empty_like", "aten::rand_like", "aten::randn_like", "aten::full_like",
        "aten::new_zeros", "aten::new_ones", "aten::new_full", "aten::new_empty"}


def scalars(x):
    """Nested lists with device scalars in them, as numbers (PyTorch reads them one by one)."""
    return [scalars(v) for v in x] if isinstance(x, (list, tuple)) else x.item() if isinstance(x, Accel) and x.dim() == 0 else x


class TensorName(type):
    """torch.Tensor as ml4gw's modules name it: its constructor bypasses dispatch."""

    def __instancecheck__(cls, x):
        return isinstance(x, torch.Tensor)

    def __subclasscheck__(cls, c):
        return issubclass(c, torch.Tensor)

    def __call__(cls, *a, **k):
        return torch.Tensor(*(scalars(v) if isinstance(v, (list, tuple)) else v for v in a), **k)

    def __getattr__(cls, name):
        return getattr(torch.Tensor, name)


class Torch(types.ModuleType):
    """torch, except where a list of device scalars would bypass dispatch."""

    class Tensor(metaclass=TensorName):
        pass

    FloatTensor = Tensor

    def __init__(self):
        super().__init__("torch")

    def __getattr__(self, name):
        return getattr(torch, name)

    def tensor(self, data, **k):
        return torch.tensor(scalars(data) if isinstance(data, (list, tuple)) else data, **k)

    def as_tensor(self, data, **k):
        return torch.as_tensor(scalars(data) if isinstance(data, (list, tuple)) else data, **k)


PROXY = Torch()


class Accelerator(TorchDispatchMode):
    """The device, while it is plugged in."""

    def __init__(self):
        super().__init__()
        self.ops = self.allocs = self.transfers = 0
        self.fail_at = None
        self.gone = False

    def allocate(self, func):
        if func._schema.is_mutable or any(r.alias_info is not None for r in func._schema.returns):
            return
        self.allocs += 1
        if self.fail_at is not None:
            self.fail_at -= 1
            if self.fail_at < 0:
                self.fail_at = None
                raise torch.OutOfMemoryError("simulated accelerator out of memory")

    def __enter__(self):
        global current
        self.prev = torch._C._only_lift_cpu_tensors()
        torch._C._set_only_lift_cpu_tensors(True)
        torch._C._ensureCUDADeviceGuardSet()
        self.lazy, torch.cuda._lazy_init = torch.cuda._lazy_init, lambda: None     # there is no driver to start
        self.overwrite = torch.__future__.get_overwrite_module_params_on_conversion()
        torch.__future__.set_overwrite_module_params_on_conversion(True)
        self.cudnn, torch.backends.cudnn.enabled = torch.backends.cudnn.enabled, False
        self.names = [m for n, m in sys.modules.items() if n.split(".")[0] == "ml4gw" and m.__dict__.get("torch") is torch]
        for m in self.names:
            m.torch = PROXY
        current = self
        return super().__enter__()

    def __exit__(self, *a):
        global current
        super().__exit__(*a)
        current = None
        for m in self.names:
            m.torch = torch
        torch.backends.cudnn.enabled = self.cudnn
        torch.__future__.set_overwrite_module_params_on_conversion(self.overwrite)
        torch.cuda._lazy_init = self.lazy
        torch._C._set_only_lift_cpu_tensors(self.prev)

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def to_host(x):
    return tree_map(unwrap, x)


def place(x):
    """'host', 'device' or 'mixed' for a structure of tensors."""
    ts = [t for t in tree_flatten(x)[0] if isinstance(t, torch.Tensor)]
    kinds = {isinstance(t, Accel) for t in ts}
    return "none" if not kinds else "mixed" if len(kinds) == 2 else "device" if kinds.pop() else "host"
