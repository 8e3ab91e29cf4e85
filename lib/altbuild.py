"""
Builds objects from value trees in other ways than with constructor lists of finished objects. The form of an attribute:
  str     the reference is given as text
  other   the reference is given as an object of another reference class with the same destination
  single  the only item is given instead of a list
  list    a list is given to the constructor although it has another name for it
  tuple   the items are given as a tuple
  text    a text for all languages instead of an overview paragraph
  pair    (language, text) instead of an overview paragraph
  plain   a number, text or tuple instead of the object that wraps it, or the only variant of SwDataDefProps
  make    the class method make, which takes the attributes of an instance reference instead of the reference
  *name   a method with arguments of its own, see special()
  +name   the items are handed to the method "name" of the finished object one by one (create_*: their arguments are)
"""
import autosar.xml.base as ar_base
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_ref
import artables
import arschema as s
from arschema import CLASSES


class NotApplicable(Exception):
    """The form can't express the value"""


GIVEN: list = [None]  # if not None: list of the lists given to constructors and methods, as (name, list, items)


FORMER: list = [None]  # if not None: list of other owners that get the same inner objects before the one to be built


def note(name, kwargs):
    """Remembers the lists among arguments"""
    if GIVEN[0] is not None:
        GIVEN[0].extend((f"{name}.{k}", v, list(v)) for k, v in kwargs.items() if isinstance(v, list))


REFS = [c for c in vars(ar_ref).values() if isinstance(c, type) and issubclass(c, ar_base.BaseRef)
        and c is not ar_base.BaseRef]


def other_refs(cls, dest):
    """Other reference classes that allow a destination"""
    return [c for c in REFS if c is not cls and dest in c.accepted_sub_types()]


def kwargs_of(tree, forms, skip=()):
    """Constructor arguments of a tree and the calls to make afterwards"""
    cls = CLASSES[tree["$"]]
    kwargs, after = {}, []
    for f in cls.fields:
        if f.attr not in tree or f.attr in skip:
            continue
        form = forms.get((tree["$"], f.attr))
        if isinstance(cls, artables.LimitCls) and f.attr in ("lower_limit", "upper_limit"):
            kwargs[f.attr] = tree[f.attr]["v"]
            kwargs[f.attr + "_type"] = ar_enum.IntervalType[tree[f.attr]["t"]]
            continue
        if form and form[0] in "+*":
            after.append((form.lstrip("+"), f, tree[f.attr]))
            continue
        kwargs_one(tree, f, form, forms, kwargs, after)
    if isinstance(cls, s.MixedCls):
        parts = [p if isinstance(p, str) else build(p, forms) for p in tree["parts"]]
        if forms.get((tree["$"], "parts"), " ")[0] == "+":
            after.append((forms[(tree["$"], "parts")][1:], None, parts))
        elif forms.get((tree["$"], "parts")) == "plain":
            if len(parts) != 1 or not isinstance(parts[0], str):
                raise NotApplicable((tree["$"], "parts"))
            kwargs["parts"] = parts[0]
        else:
            kwargs["parts"] = parts
    if isinstance(cls, s.TextCls):
        kwargs[cls.arg] = cls.kind.build(tree[cls.text_attr])
    return kwargs, after


def kwargs_one(tree, f, form, forms, kwargs, after):
    """One attribute"""
    key = (tree["$"], f.attr)
    value = tree[f.attr]
    val = build_value(f.kind, value, forms)
    if form == "str":
        vals = val if isinstance(val, list) else [val]
        if not all(isinstance(x, ar_base.BaseRef) for x in vals):
            raise NotApplicable(key)
        for x in vals:
            if len(type(x).accepted_sub_types()) != 1:
                raise NotApplicable(key)
        val = [x.value for x in val] if isinstance(val, list) else val.value
    elif form == "other":
        if not isinstance(val, ar_base.BaseRef):
            raise NotApplicable(key)
        options = other_refs(type(val), val.dest)
        if not options:
            raise NotApplicable(key)
        val = options[len(val.value) % len(options)](val.value, val.dest)
    elif form == "single":
        if not (isinstance(val, list) and len(val) == 1):
            raise NotApplicable(key)
        val = val[0]
    elif form == "plain":
        val = plain(value, forms, key)
    elif form == "make":
        val = ("make", val)
    elif form == "list":
        if not isinstance(val, list):
            raise NotApplicable(key)
    elif form == "tuple":
        if not isinstance(val, list):
            raise NotApplicable(key)
        val = tuple(val)
    elif form in ("text", "pair"):
        elements = value.get("elements", []) if isinstance(value, dict) and \
            value.get("$") == "MultiLanguageOverviewParagraph" else []
        if len(elements) != 1 or set(elements[0]) - {"$", "parts", "language"} or \
                not all(isinstance(p, str) for p in elements[0]["parts"]):
            raise NotApplicable(key)
        text, language = "".join(elements[0]["parts"]), elements[0].get("language")
        if form == "text":
            if language != "FOR_ALL":
                raise NotApplicable(key)
            val = text
        else:
            val = (ar_enum.Language[language], text)
    if form in ("plain", "single", "list") and f.attr == "elements" and f.arg == "+":
        kwargs[ELEMENTS[tree["$"]]] = val
    elif f.arg == "=":
        after.append(("=", f, val))
    elif f.arg and f.arg.startswith("+"):
        after.append((f.arg[1:] or "append", None, val))
    else:
        kwargs[f.arg or f.attr] = val


def plain(value, forms, key):
    """Value without the object that wraps it"""
    items = value if isinstance(value, list) else [value]
    if items and all(isinstance(x, dict) and x["$"] == "ModeDeclaration" and not set(x) - {"$", "name", "value"}
                     for x in items) and isinstance(value, list):
        return [(x["name"], x["value"]) if "value" in x else x["name"] for x in items]
    if isinstance(value, list) and len(value) == 1 and key[1] == "elements" and "parts" in value[0]:
        return pair(value[0], forms, key)
    if isinstance(value, dict) and value["$"] == "MultilanguageLongName" and len(value.get("elements", [])) == 1:
        value = value["elements"][0]
        return pair(value, forms, key) if len(str(value)) % 2 else build(value, forms)
    if isinstance(value, dict) and value["$"] == "SwDataDefProps" and len(value.get("variants", [])) == 1:
        return build(value["variants"][0], forms)
    if isinstance(value, dict) and value["$"] == "CompuConst":
        return value["value"]
    if isinstance(value, dict) and value["$"] == "SingleLanguageUnitNames" and not set(value) - {"$", "parts"} and \
            len(value["parts"]) == 1 and isinstance(value["parts"][0], str):
        return value["parts"][0]
    if isinstance(value, list) and len(value) == 1 and isinstance(value[0], list) and isinstance(value[0][0], str):
        return value[0][0]
    raise NotApplicable(key)


def pair(tree, forms, key):
    """(language, text or parts)"""
    if set(tree) - {"$", "parts", "language"} or "language" not in tree or not tree["parts"]:
        raise NotApplicable(key)
    parts = [p if isinstance(p, str) else build(p, forms) for p in tree["parts"]]
    return (ar_enum.Language[tree["language"]],
            parts[0] if len(parts) == 1 and isinstance(parts[0], str) else parts)


ELEMENTS = {"MultilanguageLongName": "long_name", "MultiLanguageOverviewParagraph": "paragraph",
            "MultiLanguageParagraph": "paragraph", "MultiLanguageVerbatim": "element", "DocumentationBlock": "element"}
MAKE = {"RVariableInAtomicSwcInstanceRef": ["context_port", "target_data_element"],
        "RTriggerInAtomicSwcInstanceRef": ["context_port", "target_trigger"],
        "POperationInAtomicSwcInstanceRef": ["context_port", "target_provided_operation"],
        "PModeGroupInAtomicSwcInstanceRef": ["context_port",
                                             ("target_mode_group", "context_mode_declaration_group_prototype")],
        "RModeInAtomicSwcInstanceRef": ["context_port", "context_mode_declaration_group_prototype",
                                        "target_mode_declaration"]}


def construct(cls, kwargs, key):
    """Object with constructor arguments, where ("make", reference) asks for the class method make"""
    made = [k for k, v in kwargs.items() if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == "make"]
    if not made:
        return cls(**kwargs)
    kwargs = dict(kwargs)
    ref = kwargs.pop(made[0])[1]
    names = MAKE.get(type(ref).__name__)
    if names is None or not hasattr(cls, "make"):
        raise NotApplicable((key, made[0]))
    for name in names:
        attr, arg = name if isinstance(name, tuple) else (name, name)
        value = getattr(ref, attr)
        if value is not None:
            kwargs[arg] = value
    return cls.make(**kwargs)


def build_value(kind, value, forms):
    """Value of an attribute"""
    if type(kind) is s.ListOf:  # pylint: disable=unidiomatic-typecheck
        return [build_value(kind.item, x, forms) for x in value]
    if isinstance(kind, s.Obj) and type(kind).build is s.Obj.build:
        return build(value, forms)
    if kind is artables.CUSTOM["swvalues"]:
        return [build(x, forms) if isinstance(x, dict) else x for x in value]
    return kind.build(value)


def special(obj, method, item, forms, key):
    """Methods with arguments of their own"""
    if isinstance(item, dict):
        if type(CLASSES[item["$"]]).build is not s.Cls.build:
            raise NotApplicable(key)
        args, later = kwargs_of(item, forms)
        if later:
            raise NotApplicable(key)
    if method == "create_invalidation_policy":
        if set(item) != {"$", "data_element_ref", "handle_invalid"} or \
                item["data_element_ref"][1] != "VARIABLE_DATA_PROTOTYPE":
            raise NotApplicable(key)
        ref = args["data_element_ref"]
        obj.create_invalidation_policy(ref if isinstance(ref, ar_ref.VariableDataPrototypeRef) else str(ref),
                                       args["handle_invalid"])
    elif method == "create_possible_error_ref":
        obj.create_possible_error_ref(item[0])
    elif method == "create_direction_argument":
        if "direction" not in item:
            raise NotApplicable(key)
        args.pop("direction")
        getattr(obj, f"create_{item['direction'].lower()}_argument")(**args)
    elif method.startswith("append_"):  # an exclusive area as text or reference
        if set(item) != {"$", "exclusive_area"}:
            raise NotApplicable(key)
        path = item["exclusive_area"][0]
        getattr(obj, method)(path if len(path) % 2 else ar_ref.ExclusiveAreaRef(path))
    elif method == "create_runnable":
        symbol = args.get("symbol")
        if symbol == args["name"]:
            args.pop("symbol")
        else:
            args["symbol"] = symbol
        note(method, args)
        obj.create_runnable(**args)
    else:
        raise ValueError(method)


def build(tree, forms, attach=None):
    """
    Object of a tree; forms: {(class, attribute): form}, the attributes that are not named are given as usual.
    attach is called with the new object before its methods are called.
    """
    cls = CLASSES[tree["$"]]
    if type(cls).build not in (s.Cls.build, s.MixedCls.build, s.TextCls.build, artables.LimitCls.build):
        return cls.build(tree)
    kwargs, after = kwargs_of(tree, forms)
    note(tree["$"], kwargs)
    former = None
    if FORMER[0] is not None:
        former = construct(cls.py(), {k: list(v) if isinstance(v, list) else v for k, v in kwargs.items()}, tree["$"])
        FORMER[0].append(former)
    obj = construct(cls.py(), kwargs, tree["$"])
    if attach:
        attach(obj)
    for method, f, value in after:
        if method == "=":
            setattr(obj, f.attr, value)
            continue
        for item in value if isinstance(value, list) else [value]:
            if method[0] == "*":
                special(obj, method[1:], item, forms, (tree["$"], f.attr))
            elif method.startswith("create_"):
                if not (isinstance(item, dict) and "$" in item):
                    raise NotApplicable((tree["$"], f.attr))
                args, later = kwargs_of(item, forms)
                if later or type(CLASSES[item["$"]]).build is not s.Cls.build:
                    raise NotApplicable((tree["$"], f.attr))
                note(method, args)
                if method == "create_mode_group" and len(item["name"]) % 2:  # replaces the one that it had before
                    obj.create_mode_group("Former", ar_ref.ModeDeclarationGroupRef("/Former/Type"),
                                          ar_enum.SwCalibrationAccess.READ_WRITE, category="FORMER")
                getattr(obj, method)(**args)
            elif method.startswith("extend"):
                getattr(obj, method)([build_value(f.kind.item if isinstance(f.kind, s.ListOf) else f.kind, item, forms)])
            else:
                if f is not None:
                    item = build_value(f.kind.item if isinstance(f.kind, s.ListOf) else f.kind, item, forms)
                if former is not None:
                    getattr(former, method)(item)
                getattr(obj, method)(item)
    return obj
