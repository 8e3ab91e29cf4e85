"""Values of wrong types for attributes"""
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_ref

VALUES = {
    "object": object, "int": lambda: 5, "negative": lambda: -1, "float": lambda: 1.5, "text": lambda: "A text",
    "path": lambda: "/Package/Name", "bytes": lambda: b"ABC", "dict": lambda: {"name": 1}, "set": lambda: {1},
    "class": lambda: ar_element.Unit, "Unit": lambda: ar_element.Unit("Name"),
    "Package": lambda: ar_element.Package("Name"),
    "port": lambda: ar_element.ProvidePortPrototype("Name"), "annotation": ar_element.Annotation,
    "UnitRef": lambda: ar_ref.UnitRef("/Unit"), "PackageRef": lambda: ar_ref.PackageRef("/Package"),
    "ConstantRef": lambda: ar_ref.ConstantRef("/Constant"),
    "PPortRef": lambda: ar_ref.PortPrototypeRef("/Port", ar_enum.IdentifiableSubTypes.P_PORT_PROTOTYPE),
    "Language": lambda: ar_enum.Language.EN, "Monotony": lambda: ar_enum.Monotony.DECREASING,
    "PackageRole": lambda: ar_enum.PackageRole.UNIT,
    "list of object": lambda: [object()], "list of Unit": lambda: [ar_element.Unit("Name")],
    "list of int": lambda: [5], "list of Package": lambda: [ar_element.Package("Name")],
    "list of UnitRef": lambda: [ar_ref.UnitRef("/Unit")], "list of text": lambda: ["A text"],
    # among valid items
    "+object": object, "+int": lambda: 5, "+Unit": lambda: ar_element.Unit("Name"),
    "+Package": lambda: ar_element.Package("Name"), "+UnitRef": lambda: ar_ref.UnitRef("/Unit"),
    # pairs with a valid item
    "(Unit": lambda: ar_element.Unit("Name"), ")Unit": lambda: ar_element.Unit("Name"),
    "(object": object, ")object": object, "(int": lambda: 5, ")int": lambda: 5,
    "+port": lambda: ar_element.ProvidePortPrototype("Name"), "+text": lambda: "A text",
}
