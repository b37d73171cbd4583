"""Reference semantics of constructors, comparison and texts of models."""
from paradigm._core import annotated
from paradigm._core.models import (BaseParameter, BaseSignature,
                                   OptionalParameter, OverloadedSignature,
                                   ParameterKind, PlainSignature,
                                   RequiredParameter, from_signatures)

PO = ParameterKind.POSITIONAL_ONLY
POK = ParameterKind.POSITIONAL_OR_KEYWORD
VP = ParameterKind.VARIADIC_POSITIONAL
KO = ParameterKind.KEYWORD_ONLY
VK = ParameterKind.VARIADIC_KEYWORD


# --- construction, as observed through public properties

def build_required(annotation, kind, name):
    p = RequiredParameter(annotation=annotation, kind=kind, name=name)
    return p.annotation, p.kind, p.name


def expected_required(annotation, kind, name):
    if not isinstance(kind, ParameterKind):
        raise TypeError
    if kind is VP or kind is VK:
        raise ValueError
    return annotation, kind, name


def build_optional(annotation, kind, name):
    p = OptionalParameter(annotation=annotation, kind=kind, name=name)
    return p.annotation, p.kind, p.name, p.has_default


def expected_optional(annotation, kind, name):
    if not isinstance(kind, ParameterKind):
        raise TypeError
    return annotation, kind, name, False


def build_default(annotation, kind, name, default):
    p = OptionalParameter(annotation=annotation, default=default, kind=kind,
                          name=name)
    return p.annotation, p.kind, p.name, p.has_default, p.default


def expected_default(annotation, kind, name, default):
    if not isinstance(kind, ParameterKind):
        raise TypeError
    if kind is VP or kind is VK:
        raise ValueError
    return annotation, kind, name, True, default


# --- comparison

def eq_required(self, other):
    if not isinstance(other, BaseParameter):
        return NotImplemented
    if not isinstance(other, RequiredParameter):
        return False
    return (self.name == other.name
            and self.kind == other.kind
            and annotated.are_equal(self.annotation, other.annotation))


def eq_optional(self, other):
    if not isinstance(other, BaseParameter):
        return NotImplemented
    if not isinstance(other, OptionalParameter):
        return False
    if self.has_default != other.has_default:
        return False
    if self.has_default and not annotated.are_equal(self.default,
                                                    other.default):
        return False
    return (self.name == other.name
            and self.kind == other.kind
            and annotated.are_equal(self.annotation, other.annotation))


def eq_plain(self, other):
    if not isinstance(other, BaseSignature):
        return NotImplemented
    if not isinstance(other, PlainSignature):
        return False
    return (self.parameters == other.parameters
            and annotated.are_equal(self.returns, other.returns))


def eq_overloaded(self, other):
    if not isinstance(other, BaseSignature):
        return NotImplemented
    if not isinstance(other, OverloadedSignature):
        return False
    return self.signatures == other.signatures


# --- texts

def optional_text(self):
    text = f'{self.name}: {annotated.to_repr(self.annotation)}'
    if self.has_default:
        text = f'{text} = {annotated.to_repr(self.default)}'
    if self.kind is VP:
        return '*' + text
    if self.kind is VK:
        return '**' + text
    return text


def required_text(self):
    return f'{self.name}: {annotated.to_repr(self.annotation)}'


def plain_text(self):
    parts = []
    for p in self.parameters:
        if p.kind is PO:
            parts.append(str(p))
    if any(p.kind is PO for p in self.parameters):
        parts.append('/')
    for p in self.parameters:
        if p.kind is POK:
            parts.append(str(p))
    for p in self.parameters:
        if p.kind is VP:
            parts.append(str(p))
    if (any(p.kind is KO for p in self.parameters)
            and not any(p.kind is VP for p in self.parameters)):
        parts.append('*')
    for p in self.parameters:
        if p.kind is KO:
            parts.append(str(p))
    for p in self.parameters:
        if p.kind is VK:
            parts.append(str(p))
    return f'({", ".join(parts)}) -> {annotated.to_repr(self.returns)}'


def overloaded_text(self):
    return ' | '.join([str(s) for s in self.signatures])


# --- alternatives

def build_overloaded(*signatures):
    return OverloadedSignature(*signatures).signatures


def expected_overloaded(*signatures):
    for s in signatures:
        if not isinstance(s, PlainSignature):
            raise TypeError
    if len(signatures) < 2:
        raise ValueError
    return signatures


def overloaded_expects(self, *args, **kwargs):
    for s in self.signatures:
        if s.expects(*args, **kwargs):
            return True
    return False


def overloaded_all_set(self, *args, **kwargs):
    for s in self.signatures:
        if s.all_set(*args, **kwargs):
            return True
    return False


def overloaded_bind(self, *args, **kwargs):
    bound = []
    for s in self.signatures:
        if s.expects(*args, **kwargs):
            bound.append(s.bind(*args, **kwargs))
    if not bound:
        raise TypeError
    return join(*bound)


def join(*signatures):
    flat = []
    for s in signatures:
        if isinstance(s, PlainSignature):
            flat.append(s)
        else:
            for x in s.signatures:
                flat.append(x)
    if len(flat) == 1:
        return flat[0]
    return OverloadedSignature(*flat)


# --- pickling and copying

def copy_required(self):
    return RequiredParameter(annotation=self.annotation, kind=self.kind,
                             name=self.name)


def copy_optional(self):
    if self.has_default:
        return OptionalParameter(annotation=self.annotation, kind=self.kind,
                                 name=self.name, default=self.default)
    return OptionalParameter(annotation=self.annotation, kind=self.kind,
                             name=self.name)


def copy_plain(self):
    return PlainSignature(*self.parameters, returns=self.returns)


def copy_overloaded(self):
    return OverloadedSignature(*self.signatures)


def rebuild_getnewargs_ex(self):
    args, kwargs = self.__getnewargs_ex__()
    return type(self)(*args, **kwargs)


def rebuild_getnewargs(self):
    return type(self)(*self.__getnewargs__())


def rebuild_reduce(self):
    r = self.__reduce__()
    return r[0](*r[1])


def rebuild_copy(self):
    return self.__copy__()


def rebuild_deepcopy(self):
    return self.__deepcopy__({})


# --- representations

def required_repr(self):
    return (f'RequiredParameter('
            f'annotation={annotated.to_repr(self.annotation)}, '
            f'kind={repr(self.kind)}, name={repr(self.name)})')


def optional_repr(self):
    if self.has_default:
        return (f'OptionalParameter('
                f'annotation={annotated.to_repr(self.annotation)}, '
                f'default={annotated.to_repr(self.default)}, '
                f'kind={repr(self.kind)}, name={repr(self.name)})')
    return (f'OptionalParameter('
            f'annotation={annotated.to_repr(self.annotation)}, '
            f'kind={repr(self.kind)}, name={repr(self.name)})')


def plain_repr(self):
    parts = [repr(p) for p in self.parameters]
    parts.append(f'returns={annotated.to_repr(self.returns)}')
    return f'PlainSignature({", ".join(parts)})'


def overloaded_repr(self):
    parts = [repr(s) for s in self.signatures]
    return f'OverloadedSignature({", ".join(parts)})'


def kind_repr(self):
    return 'ParameterKind.' + str(self.name)
