"""Reference semantics of plain signatures."""
from paradigm._core.models import (OptionalParameter, ParameterKind,
                                   PlainSignature, RequiredParameter)

PO = ParameterKind.POSITIONAL_ONLY
POK = ParameterKind.POSITIONAL_OR_KEYWORD
VP = ParameterKind.VARIADIC_POSITIONAL
KO = ParameterKind.KEYWORD_ONLY
VK = ParameterKind.VARIADIC_KEYWORD


def expects(self, *args, **kwargs):
    positional = [p for p in self.parameters if p.kind is PO or p.kind is POK]
    if (len(args) > len(positional)
            and not any(p.kind is VP for p in self.parameters)):
        return False
    for i, p in enumerate(self.parameters):
        if p.kind is POK and i < len(args) and p.name in kwargs:
            return False
    free = {p.name
            for i, p in enumerate(self.parameters)
            if p.kind is KO or p.kind is POK and i >= len(args)}
    return (any(p.kind is VK for p in self.parameters)
            or all(k in free for k in kwargs))


def all_set(self, *args, **kwargs):
    if not expects(self, *args, **kwargs):
        return False
    for i, p in enumerate(self.parameters):
        if isinstance(p, OptionalParameter):
            continue
        if (p.kind is PO or p.kind is POK) and i < len(args):
            continue
        if p.kind is not PO and p.name in kwargs:
            continue
        return False
    return True


def bind(self, *args, **kwargs):
    if not expects(self, *args, **kwargs):
        raise TypeError
    rest = [p
            for i, p in enumerate(self.parameters)
            if not ((p.kind is PO or p.kind is POK) and i < len(args))]
    result = []
    seen = False
    for p in rest:
        bound = (p.kind is POK or p.kind is KO) and p.name in kwargs
        if bound:
            seen = True
        if not seen:
            result.append(p)
        elif p.kind is POK or p.kind is KO:
            if bound:
                result.append(OptionalParameter(annotation=p.annotation,
                                                name=p.name, kind=KO,
                                                default=kwargs[p.name]))
            elif isinstance(p, RequiredParameter):
                result.append(RequiredParameter(annotation=p.annotation,
                                                name=p.name, kind=KO))
            elif p.has_default:
                result.append(OptionalParameter(annotation=p.annotation,
                                                name=p.name, kind=KO,
                                                default=p.default))
            else:
                result.append(OptionalParameter(annotation=p.annotation,
                                                name=p.name, kind=KO))
        elif p.kind is not VP:
            result.append(p)
    return PlainSignature(*result, returns=self.returns)
