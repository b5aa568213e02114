import sys; sys.path.insert(0, "/verif")
from tools.refactor import ref, main
T = "recap/types.py"
AV = "recap/converters/avro.py"
JS = "recap/converters/json_schema.py"
PB = "recap/converters/protobuf.py"
PG = "recap/converters/postgresql.py"
ref("R25", ["C01", "C02", "C04", "C06"], {T: [("""        non_null_types = [t for t in self.types if not isinstance(t, NullType)]
        has_null = len(non_null_types) < len(self.types)
        has_default = "default" in self.extra_attrs
        has_non_null = len(non_null_types) == 1
        return has_null and has_default and has_non_null
""", """        if "default" not in self.extra_attrs:
            return False
        counts = Counter(isinstance(t, NullType) for t in self.types)
        return counts[False] == 1 and counts[True] > 0
"""), ("""        if self._resolved is None:
            self._resolved = copy.deepcopy(self.registry.from_alias(self.alias))
            # Apply attribute overrides
            if self.doc is not None:
                self._resolved.doc = self.doc
            if self.logical is not None:
                self._resolved.logical = self.logical
            for attr, value in self.extra_attrs.items():
                if attr == "bytes" and hasattr(self._resolved, "bytes_"):
                    attr = "bytes_"
                if hasattr(self._resolved, attr):
                    setattr(self._resolved, attr, value)
                else:
                    self._resolved.extra_attrs[attr] = value
        return self._resolved
""", """        if self._resolved is not None:
            return self._resolved
        target = self._resolved = copy.deepcopy(self.registry.from_alias(self.alias))

        def override(attr: str, value: Any) -> None:
            nonlocal target
            name = {"bytes": "bytes_"}.get(attr, attr)
            if attr != name and not hasattr(target, name):
                name = attr
            try:
                getattr(target, name)
            except AttributeError:
                target.extra_attrs.update({name: value})
            else:
                setattr(target, name, value)

        # Apply attribute overrides
        for attr in ("doc", "logical"):
            if (value := getattr(self, attr)) is not None:
                setattr(target, attr, value)
        for pair in self.extra_attrs.items():
            override(*pair)
        return target
"""), ("""        alias = recap_type.alias
        if alias is None:
            raise ValueError("RecapType must have an alias.")
        if alias in self._type_registry:
            raise ValueError(f"Alias {recap_type.alias} is already used.")
        if fullmatch(ALIAS_REGEX, alias) is None:
            raise ValueError(f"Alias {alias} must be a fully qualified name.")
        recap_type = copy.deepcopy(recap_type)
        # Registry contains types without aliases so aliased types don't get
        # accidentally redefined when referenced.
        recap_type.alias = None
        # Do not include doc in aliases
        recap_type.doc = None
        # Do not include default in aliases
        recap_type.extra_attrs.pop("default", None)
        self._type_registry[alias] = recap_type
""", """        alias = recap_type.alias
        match (alias, alias in self._type_registry):
            case (None, _):
                raise ValueError("RecapType must have an alias.")
            case (_, True):
                raise ValueError("Alias {} is already used.".format(alias))
        if not fullmatch(ALIAS_REGEX, alias):
            raise ValueError("Alias %s must be a fully qualified name." % alias)
        registered = copy.deepcopy(recap_type)
        # Registry contains types without aliases so aliased types don't get
        # accidentally redefined when referenced. Docs and defaults belong to the
        # definition.
        for attr in ("alias", "doc"):
            setattr(registered, attr, None)
        with suppress(KeyError):
            del registered.extra_attrs["default"]
        self._type_registry.setdefault(alias, registered)
"""), ("""        try:
            return self._type_registry[alias]
        except KeyError:
            raise TypeError(f"No RecapType with alias {alias} found.")
""", """        if (found := self._type_registry.get(alias)) is not None:
            return found
        raise TypeError(f"No RecapType with alias {alias} found.")
"""), ("""import inspect
""", """import inspect
from collections import Counter
from contextlib import suppress
""")]})
ref("R26", ["C01", "C02", "C03", "C07"], {T: [("""    type_dict = {
        "type": recap_type.type_,
        "alias": recap_type.alias,
        "logical": recap_type.logical,
        "doc": recap_type.doc,
        **recap_type.extra_attrs,
    }

    match recap_type:
        case IntType(bits=bits, signed=sign):
            type_dict.update({"bits": bits, "signed": sign})
        case FloatType(bits=bits):
            type_dict["bits"] = bits
        case StringType(bytes_=bytes_, variable=variable):
            type_dict.update({"bytes": bytes_, "variable": variable})
        case BytesType(bytes_=bytes_, variable=variable):
            type_dict.update({"bytes": bytes_, "variable": variable})
        case ListType(values=values, length=length, variable=variable):
            type_dict.update(
                {
                    "values": to_dict(values, clean, alias),
                    "length": length,
                    "variable": variable,
                }
            )
        case MapType(keys=keys, values=values):
            type_dict.update(
                {
                    "keys": to_dict(keys, clean, alias),
                    "values": to_dict(values, clean, alias),
                }
            )
        case StructType(fields=fields):
            type_dict["fields"] = [
                to_dict(
                    field,
                    clean,
                    alias,
                )
                for field in fields
            ]
        case EnumType(symbols=symbols):
            type_dict["symbols"] = symbols
        case UnionType(types=types):
            type_dict["types"] = [
                to_dict(
                    type_,
                    clean,
                    alias,
                )
                if isinstance(type_, RecapType)
                else type_
                for type_ in types
            ]
        case ProxyType():
            # Switch `alias` to `type` for ProxyTypes. This is because
            # ProxyType abuses teh "type" attribute to always be "proxy". It
            # uses "alias" as the actual type.
            type_dict["type"] = type_dict.pop("alias")
        case NullType() | BoolType():
            # These types just have a "type" attribute
            pass
        case _:
            raise ValueError(f"Unsupported type: {recap_type.type_}")

    # Replace concrete type definitions with aliases when possible
    type_dict = alias_dict(type_dict) if alias else type_dict

    # Remove defaults (including non-None defaults)
    type_dict = clean_dict(type_dict) if clean else type_dict

    return type_dict
""", """    convert = partial(to_dict, clean=clean, alias=alias)
    type_dict = dict(
        type=recap_type.type_,
        alias=recap_type.alias,
        logical=recap_type.logical,
        doc=recap_type.doc,
    )
    for key, value in recap_type.extra_attrs.items():
        type_dict[key] = value

    for class_, attributes in _ATTRIBUTES:
        if isinstance(recap_type, class_):
            type_dict |= attributes(recap_type, convert)
            break
    else:
        if not isinstance(recap_type, ProxyType):
            raise ValueError(f"Unsupported type: {recap_type.type_}")
        # Switch `alias` to `type` for ProxyTypes. This is because
        # ProxyType abuses teh "type" attribute to always be "proxy". It
        # uses "alias" as the actual type.
        type_dict["type"] = type_dict.pop("alias")

    passes = [alias_dict] * bool(alias) + [clean_dict] * bool(clean)
    return reduce(lambda d, f: f(d), passes, type_dict)


def _sized(t: RecapType, _) -> dict[str, Any]:
    return {"bytes": t.bytes_, "variable": t.variable}


_ATTRIBUTES = (
    (IntType, lambda t, _: {k: getattr(t, k) for k in ("bits", "signed")}),
    (FloatType, lambda t, _: {"bits": t.bits}),
    ((StringType, BytesType), _sized),
    (
        ListType,
        lambda t, convert: {
            "values": convert(t.values),
            "length": t.length,
            "variable": t.variable,
        },
    ),
    (MapType, lambda t, c: dict(zip(("keys", "values"), map(c, (t.keys, t.values))))),
    (StructType, lambda t, convert: {"fields": list(map(convert, t.fields))}),
    (EnumType, lambda t, _: {"symbols": t.symbols}),
    (
        UnionType,
        lambda t, convert: {
            "types": [convert(u) if isinstance(u, RecapType) else u for u in t.types]
        },
    ),
    ((NullType, BoolType), lambda *_: {}),
)
"""), ("""import inspect
""", """import inspect
from functools import partial, reduce
""")]})
ref("R27", ["C12", "C13"], {PB: [("""        packages = [p for p in file.file_elements if isinstance(p, Package)]

        if packages:
            self.namespaces.append(packages[0].name)

        try:
            # Now parse messages and enums.
            for file_element in file.file_elements:
                if isinstance(file_element, Message):
                    struct_type = self._parse_message(file_element)
                    root_message = root_message or struct_type
                elif isinstance(file_element, Enum):
                    self._parse_enum(file_element)
        finally:
            if packages:
                self.namespaces.pop()

        if root_message is None:
            raise ValueError("Protobuf schema must contain at least one Message")

        return root_message
""", """        package = next((p for p in file.file_elements if isinstance(p, Package)), None)

        with self._namespace(package):
            # Now parse messages and enums.
            for file_element in file.file_elements:
                match file_element:
                    case Message():
                        struct_type = self._parse_message(file_element)
                        if root_message is None:
                            root_message = struct_type
                    case Enum():
                        self._parse_enum(file_element)

        if not root_message:
            raise ValueError("Protobuf schema must contain at least one Message")

        return root_message

    @contextmanager
    def _namespace(self, package: Package | None):
        with ExitStack() as stack:
            if package is not None:
                self.namespaces.append(package.name)
                stack.callback(self.namespaces.pop)
            yield
"""), ("""        types: list[RecapType] = [NullType()]
        for element in oneof.elements:
            if isinstance(element, Field):
                # !! HACK !!
                # Force oneof subfield to be required since we're unioning with null above.
                # Otherwise we end up with [NullType, [NullType, RecapType], ...].
                # This is safe to force because oneof subfields can't be repeated.
                original_cardinality = element.cardinality
                element.cardinality = FieldCardinality.REQUIRED
                recap_type = self._parse_field(element)
                element.cardinality = original_cardinality
                types.append(recap_type)
        return UnionType(types=types, name=oneof.name, default=None)
""", """        def parse(element: Field) -> RecapType:
            # Force oneof subfield to be required since we're unioning with null below.
            return self._parse_field(
                replace(element, cardinality=FieldCardinality.REQUIRED)
            )

        fields = filter(lambda e: isinstance(e, Field), oneof.elements)
        types: list[RecapType] = [NullType(), *(parse(f) for f in fields)]
        return UnionType(**dict(types=types, name=oneof.name, default=None))
"""), ("""                name = protobuf_type.removeprefix(".")
                if "." in name:
                    alias = name
                elif name != protobuf_type:
                    # The type is defined in a file without a package.
                    alias = f"{self.namespaces[0]}.{name}"
                else:
                    alias = f"{self.namespaces[-1]}.{name}"
                return ProxyType(alias, self.registry)
""", """                rooted = protobuf_type[:1] == "."
                namespace, dot, name = protobuf_type[rooted:].rpartition(".")
                if not dot:
                    namespace = self.namespaces[0 if rooted else -1]
                return ProxyType(".".join((namespace, name)), self.registry)
"""), ("""            match = None
""", """            match = None
""") if False else ("""                elements: list[EnumElement] = [
                    EnumValue(symbol, idx)
                    for symbol, idx in zip(
                        recap_type.symbols, range(len(recap_type.symbols))
                    )
                ]
                enum = Enum(enum_name, elements)
                package_to_types.setdefault(enum_package, []).append(enum)
""", """                numbers = count()
                elements: list[EnumElement] = [
                    EnumValue(symbol, next(numbers)) for symbol in symbols
                ]
                if enum_package not in package_to_types:
                    package_to_types[enum_package] = []
                package_to_types[enum_package] += [Enum(enum_name, elements)]
"""), ("""        package = sorted(package_to_types.keys())[0]
        # Verify""", """        package, *_ = sorted(package_to_types)
        # Verify"""), ("""from proto_schema_parser.ast import""", """from contextlib import ExitStack, contextmanager
from dataclasses import replace
from itertools import count

from proto_schema_parser.ast import""")]})
ref("R28", ["C08", "C09"], {AV: [("""        avro_schema = {}

        if recap_type.doc:
            avro_schema["doc"] = recap_type.doc

        if name := recap_type.extra_attrs.get("name"):
            avro_schema["name"] = name

        if "default" in recap_type.extra_attrs:
            avro_schema["default"] = recap_type.extra_attrs["default"]

        if (alias := recap_type.alias) and "." in alias:
            # If the alias is not naked (built-in), define it in Avro. Built-in
            # types are always resolved (so "int32" always becomes "int",
            # "decimal256" always becomes a bytes with logicalType "decimal",
            # etc.)
            avro_schema["aliases"] = [alias]
""", """        alias = recap_type.alias or ""
        attributes = {
            "doc": recap_type.doc or MISSING,
            "name": recap_type.extra_attrs.get("name") or MISSING,
            "default": recap_type.extra_attrs.get("default", MISSING),
            # If the alias is not naked (built-in), define it in Avro. Built-in
            # types are always resolved.
            "aliases": [alias] if "." in alias else MISSING,
        }
        avro_schema = {k: v for k, v in attributes.items() if v is not MISSING}
"""), ("""                record_fields = []
                for struct_field in struct_fields:
                    record_field = {}
                    field_type = self._from_recap(struct_field)
                    if isinstance(field_type, dict):
                        record_field |= field_type
                    elif isinstance(field_type, str):
                        record_field["type"] = field_type
                    else:
                        raise ValueError(f"Unexpected field type: {field_type}")
                    record_fields.append(record_field)
                avro_schema["fields"] = record_fields
""", """                avro_schema["fields"] = list(
                    starmap(self._field, zip(struct_fields))
                )
"""), ("""    def _from_recap_logical(self""", """    def _field(self, struct_field: RecapType) -> dict[str, Any]:
        match self._from_recap(struct_field):
            case dict() as field_type:
                return {**field_type}
            case str(field_type):
                return dict(type=field_type)
            case field_type:
                raise ValueError(f"Unexpected field type: {field_type}")

    def _from_recap_logical(self"""), ("""class AvroConverter:
""", """MISSING = object()


class AvroConverter:
"""), ("""import json
""", """import json
from itertools import starmap
"""), ("""        if isinstance(avro_schema, (str, list)):
            avro_schema = {"type": avro_schema}
        if "doc" in avro_schema:
            extra_attrs["doc"] = avro_schema["doc"]
        if "namespace" in avro_schema:
            namespace = avro_schema["namespace"]
        if "name" in avro_schema:
            name = avro_schema["name"]
            if "." in avro_schema["name"]:
                namespace, name = avro_schema["name"].rsplit(".", 1)
            if not namespace:
                namespace = "_root"
            extra_attrs["name"] = name
            # Only named types can be referenced. Other names are field names.
            if avro_schema.get("type") in ("record", "enum", "fixed"):
                alias = f"{namespace}.{name}"
        if "default" in avro_schema:
            extra_attrs["default"] = avro_schema["default"]
""", """        if not isinstance(avro_schema, dict):
            avro_schema = dict([("type", avro_schema)])
        namespace = avro_schema.get("namespace", namespace)
        for attr in filter(avro_schema.__contains__, ("doc", "name", "default")):
            extra_attrs[attr] = avro_schema[attr]
        if (full_name := extra_attrs.get("name")) is not None:
            prefix, dot, name = full_name.rpartition(".")
            namespace = (prefix if dot else namespace) or "_root"
            extra_attrs["name"] = name
            # Only named types can be referenced. Other names are field names.
            if avro_schema.get("type") in {"record": 1, "enum": 2, "fixed": 3}.keys():
                alias = "%(namespace)s.%(name)s" % {"namespace": namespace, "name": name}
""") if False else ("""        if "default" in avro_schema:
            extra_attrs["default"] = avro_schema["default"]
        if logical_type""", """        for attr in filter(avro_schema.__contains__, ("default",)):
            extra_attrs[attr] = avro_schema[attr]
        if logical_type"""), ("""            if "." in avro_schema["name"]:
                namespace, name = avro_schema["name"].rsplit(".", 1)
            if not namespace:
                namespace = "_root"
""", """            prefix, dot, name = name.rpartition(".")
            namespace = (prefix if dot else namespace) or "_root"
"""), ("""                alias = f"{namespace}.{name}"
        if "default\"""", """                alias = "%(namespace)s.%(name)s" % dict(namespace=namespace, name=name)
        if "default\"""") if False else ("""                alias = f"{namespace}.{name}"
""", """                alias = "%(ns)s.%(name)s" % {"ns": namespace, "name": name}
"""), ("""            case {"type": dict(type_)}:
                return_type = self._parse(type_, namespace)
""", """            case {"type": dict(type_)}:
                return_type = self._parse(avro_schema=type_, namespace=namespace)
""")]})
ref("R29", ["C10", "C11"], {JS: [("""                fields = []
                for name, prop in properties.items():
                    field = self._parse(prop, alias_strategy)
                    # If not explicitly required, make optional by ensuring the
                    # field is nullable, and has a default
                    if name not in json_schema.get("required", []):
                        if not field.is_nullable():
                            field = field.make_nullable()
                        # is_nullable doesn't guarantee a default of none, so
                        # set it here.
                        if "default" not in field.extra_attrs:
                            field.extra_attrs["default"] = None

                    field.extra_attrs["name"] = name
                    fields.append(field)
                return StructType(fields, **extra_attrs)
""", """                required = set(json_schema.get("required", ()))

                def parse_property(item: tuple[str, Any]) -> RecapType:
                    name, prop = item
                    field = self._parse(prop, alias_strategy)
                    # If not explicitly required, make optional by ensuring the
                    # field is nullable, and has a default
                    if name not in required:
                        field = field if field.is_nullable() else field.make_nullable()
                        field.extra_attrs.setdefault("default", None)
                    field.extra_attrs.update(name=name)
                    return field

                return StructType([*map(parse_property, properties.items())], **extra_attrs)
"""), ("""            case {"type": "string", "format": "bytes"}:
                return BytesType(**extra_attrs)
            case {"type": "string", "format": "date"}:
                return StringType(logical="org.iso.8601.Date", **extra_attrs)
            case {"type": "string", "format": "date-time"}:
                return StringType(logical="org.iso.8601.DateTime", **extra_attrs)
            case {"type": "string", "format": "time"}:
                return StringType(logical="org.iso.8601.Time", **extra_attrs)
            case {"type": "string"}:
                return StringType(**extra_attrs)
            case {"type": "number"}:
                return FloatType(bits=64, **extra_attrs)
            case {"type": "integer"}:
                return IntType(bits=32, signed=True, **extra_attrs)
            case {"type": "boolean"}:
                return BoolType(**extra_attrs)
            case {"type": "null"}:
                return NullType(**extra_attrs)
""", """            case {"type": "string"}:
                return self._parse_string(json_schema.get("format"), extra_attrs)
            case {"type": str(simple)} if simple in SIMPLE_TYPES:
                return SIMPLE_TYPES[simple](**extra_attrs)
"""), ("""    def from_recap(self, recap_type: RecapType)""", """    @staticmethod
    def _parse_string(format_: Any, extra_attrs: dict[str, Any]) -> RecapType:
        if format_ == "bytes":
            return BytesType(**extra_attrs)
        kinds = ["Date", "DateTime", "Time"]
        formats = ["date", "date-time", "time"]
        try:
            logical = "org.iso.8601." + kinds[formats.index(format_)]
        except ValueError:
            return StringType(**extra_attrs)
        return StringType(logical=logical, **extra_attrs)

    def from_recap(self, recap_type: RecapType)"""), ("""class JSONSchemaConverter:
""", """SIMPLE_TYPES = {
    "number": partial(FloatType, bits=64),
    "integer": partial(IntType, bits=32, signed=True),
    "boolean": BoolType,
    "null": NullType,
}


class JSONSchemaConverter:
"""), ("""        defs = {}

        # A ProxyType""", """        defs: dict[str, Any] = {}

        # A ProxyType"""), ("""        if isinstance(recap_type, StructType):
            for field in recap_type.fields:
                defs |= self._generate_alias_defs(field)
        elif isinstance(recap_type, ListType):
            defs |= self._generate_alias_defs(recap_type.values)
        elif isinstance(recap_type, UnionType):
            for value in recap_type.types:
                defs |= self._generate_alias_defs(value)
        elif isinstance(recap_type, MapType):
            defs |= self._generate_alias_defs(recap_type.values)

        return defs
""", """        match recap_type:
            case StructType(fields=children) | UnionType(types=children):
                pass
            case ListType(values=child) | MapType(values=child):
                children = (child,)
            case _:
                children = ()

        for child in children:
            for name, definition in self._generate_alias_defs(child).items():
                defs[name] = definition

        return defs
"""), ("""                type_dict |= {"type": "object", "properties": {}}
                for field in field.fields:
                    if field_name := field.extra_attrs.get("name"):
                        type_dict["properties"][field_name] = self._convert_field(field)

                        if not isinstance(field, UnionType) or not field.is_optional:
                            type_dict.setdefault("required", []).append(field_name)
                    else:
                        raise ValueError(f"Field {field} has no name")
""", """                properties: dict[str, Any] = {}
                required: list[str] = []
                for child in field.fields:
                    name = child.extra_attrs.get("name")
                    if not name:
                        raise ValueError(f"Field {child} has no name")
                    properties[name] = self._convert_field(child)
                    optional = isinstance(child, UnionType) and child.is_optional
                    required += [] if optional else [name]
                type_dict.update(type="object", properties=properties)
                if required:
                    type_dict["required"] = required
"""), ("""        domain_parts = parsed.netloc.split(".")
        domain_parts.reverse()
        domain = ".".join(domain_parts)

        # Replace special characters in the path, convert to lowercase
        path = parsed.path + parsed.fragment
        path = re.sub(r"[^a-zA-Z0-9]", ".", path)
        path = path.lower()

        # Combine domain and path
        dotted_type = domain
        if path and path != ".":
            dotted_type += "." + path.strip(".")

        return dotted_type
""", """        domain = ".".join(parsed.netloc.split(".")[::-1])

        # Replace special characters in the path, convert to lowercase
        special = re.compile("[^a-zA-Z0-9]")
        path = special.sub(".", f"{parsed.path}{parsed.fragment}").lower()

        # Combine domain and path
        if path in ("", "."):
            return domain
        return f"{domain}.{path.strip('.')}"
"""), ("""import re
""", """import re
from functools import partial
""")]})
ref("R30", ["C15", "C16"], {"recap/converters/dbapi.py": [("""        fields = []
        for column in columns:
            base_type = self._parse_type(column)
            is_nullable = column["IS_NULLABLE"].upper() == "YES"

            if is_nullable:
                base_type = base_type.make_nullable()

            if column["COLUMN_DEFAULT"] is not None or is_nullable:
                # TODO Convert default value to the correct type, not just a string
                base_type.extra_attrs["default"] = column["COLUMN_DEFAULT"]

            base_type.extra_attrs["name"] = column["COLUMN_NAME"]

            fields.append(base_type)

        return StructType(fields=fields)
""", """        return StructType(fields=[*self._fields(columns)])

    def _fields(self, columns: Iterable[dict[str, Any]]) -> Iterator[RecapType]:
        for column in columns:
            nullable = column["IS_NULLABLE"].casefold() == "yes"
            base_type = self._parse_type(column)
            field = base_type.make_nullable() if nullable else base_type
            default = column["COLUMN_DEFAULT"]
            attrs = {"name": column["COLUMN_NAME"]}
            if nullable or default is not None:
                # TODO Convert default value to the correct type, not just a string
                attrs["default"] = default
            field.extra_attrs.update(attrs)
            yield field
"""), ("""            case [unit, *_] if int(unit) == 0:
                return "second"
            case [unit, *_] if int(unit) <= 3:
                return "millisecond"
            case [unit, *_] if int(unit) <= 6:
                return "microsecond"
""", """            case [first, *_]:
                precision = int(first)
                if precision == 0:
                    return "second"
                for limit, unit in ((3, "millisecond"), (6, "microsecond")):
                    if precision <= limit:
                        return unit
""") if False else ("""from typing import Any
""", """from collections.abc import Iterable, Iterator
from typing import Any
""")], PG: [("""        if data_type in ["bigint", "int8", "bigserial", "serial8"]:
            base_type = IntType(bits=64, signed=True)
        elif data_type in ["integer", "int", "int4", "serial", "serial4"]:
            base_type = IntType(bits=32, signed=True)
        elif data_type in ["smallint", "int2", "smallserial", "serial2"]:
            base_type = IntType(bits=16, signed=True)
        elif data_type in ["double precision", "float8"]:
            base_type = FloatType(bits=64)
        elif data_type in ["real", "float4"]:
            base_type = FloatType(bits=32)
        elif""", """        for names, type_class, bits in NUMBERS:
            if data_type in names.split("|"):
                return type_class(bits)

        if"""), ("""            or data_type.startswith("character varying")
            or data_type.startswith("varchar")
""", """            or data_type.startswith(("character varying", "varchar"))
"""), ("""                while self._is_registered(base_type_alias):
                    base_type_alias += "_"
""", """                candidates = (base_type_alias + "_" * n for n in count())
                base_type_alias = next(
                    c for c in candidates if not self._is_registered(c)
                )
"""), ("""        if ndims == 0:
            return UnionType(types=[NullType(), base_type])
        else:
            return ListType(
                values=self._create_n_dimension_list(base_type, ndims - 1),
            )
""", """        result: RecapType = UnionType(types=[NullType(), base_type])
        for _ in range(ndims):
            result = ListType(values=result)
        return result
"""), ("""DEFAULT_NAMESPACE =""", """NUMBERS = [
    ("bigint|int8|bigserial|serial8", IntType, 64),
    ("integer|int|int4|serial|serial4", IntType, 32),
    ("smallint|int2|smallserial|serial2", IntType, 16),
    ("double precision|float8", FloatType, 64),
    ("real|float4", FloatType, 32),
]

DEFAULT_NAMESPACE ="""), ("""from math import ceil
""", """from itertools import count
from math import ceil
""")], "recap/converters/mysql.py": [("""        if data_type == "bigint":
            # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
            base_type = IntType(bits=64, signed=signed)
        elif data_type in ["int", "integer"]:
            # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
            base_type = IntType(bits=32, signed=signed)
        elif data_type == "mediumint":
            # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
            base_type = IntType(bits=24, signed=signed)
        elif data_type == "smallint":
            # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
            base_type = IntType(bits=16, signed=signed)
        elif data_type == "tinyint":
            # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
            base_type = IntType(bits=8, signed=signed)
        elif""", """        prefix = data_type.removesuffix("eger").removesuffix("int")
        # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
        sizes = dict(tiny=1, small=2, medium=3, big=8)
        sizes[""] = 4
        is_int = data_type == "integer" or data_type == f"{prefix}int"
        if is_int and prefix in sizes:
            base_type = IntType(bits=8 * sizes[prefix], signed=signed)
        elif""")], "recap/converters/snowflake.py": [("""            params = self._parse_parameters(data_type)
            unit = self._get_time_unit(params) or "nanosecond"
            base_type = IntType(bits=32, logical="build.recap.Time", unit=unit)
        else:
            raise ValueError(f"Unknown data type: {data_type}")

        return base_type""", """            base_type = IntType(
                bits=32,
                logical="build.recap.Time",
                unit=self._get_time_unit(self._parse_parameters(data_type))
                or "nanosecond",
            )
        else:
            raise ValueError("Unknown data type: " + data_type)

        return base_type""")]})
ref("R31", ["C14", "C17", "C18"], {"recap/clients/sqlite.py": [("""        rows = []

        for row_cells in cursor.fetchall():
            row = dict(zip(names, row_cells))
            row = self.add_information_schema(row)
            rows.append(row)

        return self.converter.to_recap(rows)
""", """        rows = (
            self.add_information_schema({n: c for n, c in zip(names, cells)})
            for cells in iter(cursor.fetchone, None)
        )

        return self.converter.to_recap(list(rows))
""") if False else ("""        rows = []

        for row_cells in cursor.fetchall():
            row = dict(zip(names, row_cells))
            row = self.add_information_schema(row)
            rows.append(row)

        return self.converter.to_recap(rows)
""", """        rows = (
            self.add_information_schema({n: c for n, c in zip(names, cells)})
            for cells in cursor.fetchall()
        )

        return self.converter.to_recap(list(rows))
"""), ("""        numeric_pattern = re_compile(
            r"(\\w+)\\s*\\(\\s*(\\d+)\\s*(?:,\\s*(\\d+)\\s*)?\\)"
        )
        param_match = numeric_pattern.search(row["TYPE"])

        if param_match:
            # Extract matched values
            _, precision, scale = param_match.groups()
            precision = int(precision)
            scale = int(scale) if scale else 0
""", """        numeric_pattern = re_compile(
            r"\\w\\s*\\(\\s*(?P<precision>\\d+)\\s*(?:,\\s*(?P<scale>\\d+)\\s*)?\\)"
        )

        if (found := numeric_pattern.search(row["TYPE"])) is not None:
            # Extract matched values
            precision, scale = (int(found[g] or "0") for g in ("precision", "scale"))
"""), ("""                case SQLiteAffinity.INTEGER | SQLiteAffinity.REAL | SQLiteAffinity.NUMERIC:
                    information_schema_cols["NUMERIC_PRECISION"] = precision
                    information_schema_cols["NUMERIC_SCALE"] = scale
                case SQLiteAffinity.TEXT | SQLiteAffinity.BLOB:
                    information_schema_cols["CHARACTER_OCTET_LENGTH"] = precision
""", """                case SQLiteAffinity.TEXT | SQLiteAffinity.BLOB:
                    information_schema_cols["CHARACTER_OCTET_LENGTH"] = precision
                case _:
                    information_schema_cols.update(
                        NUMERIC_PRECISION=precision, NUMERIC_SCALE=scale
                    )
""")], "recap/clients/hive_metastore.py": [("""        fields_dict = {f.extra_attrs["name"]: f for f in fields}
        table_stats = self.client.get_table_stats(table, [])
        table_stats = [cs for cs in table_stats if cs.stats is not None]
        for col_stats in table_stats:
            recap_type = fields_dict[col_stats.columnName]
            match""", """        by_name = dict(map(lambda f: (f.extra_attrs["name"], f), fields))
        for col_stats in self.client.get_table_stats(table, []):
            if col_stats.stats is None:
                continue
            recap_type = by_name[col_stats.columnName]
            match"""), ("""                    stats: dict[str, Any] = {
                        "cardinality": col_stats.stats.cardinality,
                    }
                    if col_stats.stats.lowValue is not None:
                        stats["low"] = col_stats.stats.lowValue.daysSinceEpoch
                    if col_stats.stats.highValue is not None:
                        stats["high"] = col_stats.stats.highValue.daysSinceEpoch
                    recap_type.extra_attrs |= stats
                case StringTypeStats""", """                    limits = {
                        "low": col_stats.stats.lowValue,
                        "high": col_stats.stats.highValue,
                    }
                    recap_type.extra_attrs |= {
                        "cardinality": col_stats.stats.cardinality,
                        **{
                            k: date.daysSinceEpoch
                            for k, date in limits.items()
                            if date is not None
                        },
                    }
                case StringTypeStats""")], "recap/converters/bigquery.py": [("""        recap_fields = []
        for field in fields:
            match field.field_type:
""", """        return StructType([self._to_recap(field) for field in fields])

    def _to_recap(self, field: bigquery.SchemaField) -> RecapType:
        for _ in range(1):
            match field.field_type:
"""), ("""            if field.mode == "REPEATED":
                field_type = ListType(field_type)
            if field.mode == "NULLABLE":
                field_type = field_type.make_nullable()
""", """            wrap = {
                "REPEATED": ListType,
                "NULLABLE": methodcaller("make_nullable"),
            }.get(field.mode)
            field_type = wrap(field_type) if wrap else field_type
"""), ("""            recap_fields.append(field_type)

        return StructType(recap_fields)""", """        return field_type"""), ("""    ListType,
    StringType,""", """    ListType,
    RecapType,
    StringType,"""), ("""from google.cloud import bigquery
""", """from operator import methodcaller

from google.cloud import bigquery
""")]})
ref("R32", ["C20", "C21", "C22"], {"recap/settings.py": [("""        safe_urls_list = []

        for url in self.urls:
            split_url = urlsplit(str(url))
            netloc = split_url.netloc

            if split_url.username or split_url.password:
                # Only remove the credentials. Rebuilding the netloc from its hostname
                # and port would lose the brackets of IPv6 addresses.
                netloc = netloc.rpartition("@")[2]

            safe_urls_list.append(
                _unsplit_url(
                    split_url.scheme,
                    netloc,
                    split_url.path.rstrip("/"),
                    split_url.query,
                    split_url.fragment,
                )
            )

        return safe_urls_list
""", """        return [_without_credentials(urlsplit(str(url))) for url in self.urls]
"""), ("""class RecapSettings(BaseSettings):
""", """def _without_credentials(url: SplitResult) -> str:
    netloc = url.netloc
    if any((url.username, url.password)):
        # Only remove the credentials. Rebuilding the netloc from its hostname
        # and port would lose the brackets of IPv6 addresses.
        *_, netloc = netloc.rsplit("@", 1)
    return _unsplit_url(*url._replace(netloc=netloc, path=url.path.rstrip("/")))


class RecapSettings(BaseSettings):
"""), ("""from urllib.parse import parse_qs, urlencode, urlsplit
""", """from urllib.parse import SplitResult, parse_qs, urlencode, urlsplit
"""), ("""    url = f"{scheme}://{netloc}{path}"
    if query:
        url += f"?{query}"
    if fragment:
        url += f"#{fragment}"
    return url
""", """    parts = [scheme, "://", netloc, path]
    for separator, part in (("?", query), ("#", fragment)):
        parts += (separator, part) if part else ()
    return "".join(parts)
"""), ("""            if (
                unsafe_url_split.scheme == url_split.scheme
                and unsafe_url_split.hostname == url_split.hostname
                and unsafe_url_split.port == url_split.port
                and _is_subpath(url_path, unsafe_url_split.path or "/")
            ):
""", """            origin = attrgetter("scheme", "hostname", "port")
            if origin(unsafe_url_split) == origin(url_split) and _is_subpath(
                url_path, unsafe_url_split.path or "/"
            ):
"""), ("""                merged_qs = unsafe_qs | url_qs
""", """                merged_qs = {**unsafe_qs, **url_qs}
"""), ("""import os
""", """import os
from operator import attrgetter
""")], "recap/clients/__init__.py": [("""    if client_path := CLIENTS.get(scheme):
        module_path, class_name = client_path.rsplit(".", 1)
        module = import_module(module_path)
        client_class = getattr(module, class_name)
        with client_class.create(**url_args) as client:
            yield client
    else:
        raise ValueError(f"No clients available for scheme: {scheme}")
""", """    with _client_class(scheme).create(**url_args) as client:
        yield client


def _client_class(scheme: str) -> type[Client]:
    try:
        client_path = CLIENTS[scheme]
    except KeyError:
        raise ValueError(f"No clients available for scheme: {scheme}") from None
    module_path, _, class_name = client_path.rpartition(".")
    return getattr(import_module(module_path), class_name)
"""), ("""    if client_path := CLIENTS.get(scheme):
        module_path, class_name = client_path.rsplit(".", 1)
        module = import_module(module_path)
        client_class = getattr(module, class_name)
        connection_url, method_args = client_class.parse(method, **url_args)

        # Clients return URLs with their dialect (e.g. http://), but settings and
        # create_client need the scheme with the driver (e.g. http+csr://).
        if dialect := url_args.get("dialect"):
            connection_url = connection_url.replace(
                f"{dialect}://", f"{scheme}://", 1
            )

        return (settings.unsafe_url(connection_url, strict), method_args)
    else:
        raise ValueError(f"No clients available for scheme: {scheme}")
""", """    connection_url, method_args = _client_class(scheme).parse(method, **url_args)

    # Clients return URLs with their dialect (e.g. http://), but settings and
    # create_client need the scheme with the driver (e.g. http+csr://).
    dialect = url_args.get("dialect")
    if dialect:
        head, separator, tail = connection_url.partition(f"{dialect}://")
        connection_url = f"{head}{scheme}://{tail}" if separator else connection_url

    return settings.unsafe_url(connection_url, strict), method_args
"""), ("""    parsed_qs = {
        key: value[0] if len(value) == 1 else value for key, value in parsed_qs.items()
    }
""", """    for key, value in list(parsed_qs.items()):
        match value:
            case [single]:
                parsed_qs[key] = single
"""), ("""    if username := parsed_url.username:
        parsed_dict["username"] = parsed_dict["user"] = unquote(username)

    if password := parsed_url.password:
        parsed_dict["password"] = unquote(password)

    if hostname := parsed_url.hostname:
        parsed_dict["host"] = hostname
""", """    for attr, keys, convert in (
        ("username", ("username", "user"), unquote),
        ("password", ("password",), unquote),
        ("hostname", ("host",), str),
    ):
        if value := getattr(parsed_url, attr):
            parsed_dict.update(dict.fromkeys(keys, convert(value)))
"""), ("""    parsed_dict["paths"] = [path for path in parsed_dict["path"].split("/") if path]
""", """    parsed_dict["paths"] = list(filter(None, parsed_dict["path"].split("/")))
""")]})
ref("R33", ["C23", "C24", "C25", "C26"], {"recap/storage/registry.py": [("""        return sorted(
            [
                unquote_plus(file_path[len(self.root_path) + 1 :])
                for file_path in self.fs.ls(self.root_path, detail=False)
            ]
        )
""", """        prefix = self.root_path + "/"
        names = []
        for file_path in self.fs.ls(self.root_path, detail=False):
            bisect.insort(names, unquote_plus(file_path[len(prefix) :]))
        return names
"""), ("""        if version is None:
            versions = self.versions(name)
            if not versions:
                return None
            version = max(versions)

        try:
            with self.fs.open(f"{self.root_path}/{quoted_name}/{version}.json") as f:
                type_json = json.load(f)
                type_ = from_dict(type_json)
                return (type_, version)
        except FileNotFoundError:
            return None
""", """        if version is None and (version := self.latest(name)) is None:
            return None

        path = posixpath.join(self.root_path, quoted_name, f"{version}.json")
        with suppress(FileNotFoundError), self.fs.open(path) as f:
            return from_dict(json.loads(f.read())), version
        return None
"""), ("""            return sorted(
                [
                    int(Path(file_path).stem)
                    for file_path in self.fs.ls(path_without_version, detail=False)
                ]
            )
        except FileNotFoundError:
            return None
""", """            file_paths = self.fs.ls(path_without_version, detail=False)
        except FileNotFoundError:
            return None
        versions = [int(posixpath.basename(p).removesuffix(".json")) for p in file_paths]
        versions.sort()
        return versions
"""), ("""        if not versions:
            return None
        return max(versions)
""", """        return versions[-1] if versions else None
"""), ("""        if quoted_name in (".", ".."):
            quoted_name = quoted_name.replace(".", "%2E")

        return quoted_name
""", """        return {".": "%2E", "..": "%2E%2E"}.get(quoted_name, quoted_name)
"""), ("""import json
from pathlib import Path
""", """import bisect
import json
import posixpath
from contextlib import suppress
""")], "recap/server/registry.py": [("""    if type_and_version := storage.get(name):
        type_, version = type_and_version
        return to_dict(type_), version
    else:
        raise HTTPException(status_code=404, detail="Not found")
""", """    return _found(storage.get(name))
"""), ("""    if type_and_version := storage.get(name, version):
        type_, version = type_and_version
        return to_dict(type_), version
    else:
        raise HTTPException(status_code=404, detail="Not found")
""", """    return _found(storage.get(name, version))
"""), ("""async def _request_to_type(""", """def _found(type_and_version):
    match type_and_version:
        case (type_, version):
            return to_dict(type_), version
    raise HTTPException(status_code=404, detail="Not found")


async def _request_to_type("""), ("""    if storage.get(name, version):
        raise HTTPException(
            status_code=409,
            detail=f"Type {name} version {version} already exists",
        )

    return storage.put(name, type_, version)
""", """    if storage.get(name, version) is None:
        return storage.put(name, type_, version)

    raise HTTPException(
        status_code=409,
        detail=f"Type {name} version {version} already exists",
    )
""")]})
ref("R34", ["C20", "C22", "C28", "C29"], {"recap/clients/fs.py": [("""        suffix = Path(path).suffix.lower().strip(".")

        match suffix:
            case "avsc" | "avro" | "avdl" | "avpr":
                from recap.converters.avro import AvroConverter

                return AvroConverter().to_recap(self._read_file(path))
            case "json" | "jsonschema" | "jsons":
                from recap.converters.json_schema import JSONSchemaConverter

                return JSONSchemaConverter().to_recap(self._read_file(path))
            case "proto" | "protobuf" | "protos" | "proto3" | "proto2":
                from recap.converters.protobuf import ProtobufConverter

                return ProtobufConverter().to_recap(self._read_file(path))
            case _:
                raise ValueError(f"Unsupported file type {suffix}")
""", """        suffix = Path(path).suffix[1:].lower()
        try:
            name = next(k for k, suffixes in SUFFIXES.items() if suffix in suffixes)
        except StopIteration:
            raise ValueError(f"Unsupported file type {suffix}") from None

        if name == "avro":
            from recap.converters.avro import AvroConverter as Converter
        elif name == "json":
            from recap.converters.json_schema import JSONSchemaConverter as Converter
        else:
            from recap.converters.protobuf import ProtobufConverter as Converter

        return Converter().to_recap(self._read_file(path))
"""), ("""class FilesystemClient:
""", """SUFFIXES = {
    "avro": {"avsc", "avro", "avdl", "avpr"},
    "json": {"json", "jsonschema", "jsons"},
    "protobuf": {"proto", "protobuf", "protos", "proto3", "proto2"},
}


class FilesystemClient:
"""), ("""        root_url = f"{split_url.scheme or 'file'}://"
        path = "/"

        if split_url.netloc:
            path += split_url.netloc + "/"
        if split_url.path.startswith("/"):
            path += split_url.path[1:] + "/"
        elif split_url.path:
            # Relative to the working directory
            path = split_url.path + "/"

        return (root_url, [path])
""", """        scheme, netloc, path, *_ = split_url
        root_url = (scheme or "file") + "://"

        if path and not path.startswith("/"):
            # Relative to the working directory
            return root_url, [f"{path}/"]
        segments = [""] + ([netloc] if netloc else []) + ([path[1:]] if path else [])
        return root_url, ["/".join(segments) + "/"]
""")], "recap/clients/confluent_registry.py": [("""        has_kv = subject.endswith("-key") or subject.endswith("-value")
        subject = subject if has_kv else f"{subject}-value"
""", """        if not subject.endswith(("-key", "-value")):
            subject += "-value"
""")], "recap/commands.py": [("""    if not url:
        return settings.safe_urls
    connection_url, method_args = parse_url("ls", url, strict)
    with create_client(connection_url) as client:
        return client.ls(*method_args)
""", """    if url:
        connection_url, method_args = parse_url("ls", url, strict=strict)
        with create_client(connection_url) as client:
            return client.ls(*method_args)
    return settings.safe_urls
"""), ("""        recap_struct = client.schema(*method_args)
        output_obj: dict | str
        match format:
            case SchemaFormat.avro:
                from recap.converters.avro import AvroConverter

                output_obj = AvroConverter().from_recap(recap_struct)
            case SchemaFormat.json:
                from recap.converters.json_schema import JSONSchemaConverter

                output_obj = JSONSchemaConverter().from_recap(recap_struct)
            case SchemaFormat.protobuf:
                from proto_schema_parser.generator import Generator

                from recap.converters.protobuf import ProtobufConverter

                proto_file = ProtobufConverter().from_recap(recap_struct)
                proto_str = Generator().generate(proto_file)

                output_obj = proto_str
            case SchemaFormat.recap:
                from recap.types import to_dict

                struct_dict = to_dict(recap_struct)
                if not isinstance(struct_dict, dict):
                    raise ValueError(
                        f"Expected a schema dict, but got {type(struct_dict)}"
                    )
                output_obj = struct_dict
            case _:
                raise ValueError(f"Unknown schema format: {format}")
        return output_obj""", """        return _convert(client.schema(*method_args), format)


def _to_avro(recap_struct):
    from recap.converters.avro import AvroConverter

    return AvroConverter().from_recap(recap_struct)


def _to_json(recap_struct):
    from recap.converters.json_schema import JSONSchemaConverter

    return JSONSchemaConverter().from_recap(recap_struct)


def _to_protobuf(recap_struct):
    from proto_schema_parser.generator import Generator

    from recap.converters.protobuf import ProtobufConverter

    return Generator().generate(ProtobufConverter().from_recap(recap_struct))


def _to_recap(recap_struct):
    from recap.types import to_dict

    struct_dict = to_dict(recap_struct)
    if not isinstance(struct_dict, dict):
        raise ValueError(f"Expected a schema dict, but got {type(struct_dict)}")
    return struct_dict


def _convert(recap_struct, format: SchemaFormat) -> dict | str:
    converters = {
        SchemaFormat.avro: _to_avro,
        SchemaFormat.json: _to_json,
        SchemaFormat.protobuf: _to_protobuf,
        SchemaFormat.recap: _to_recap,
    }
    try:
        converter = converters[format]
    except KeyError:
        raise ValueError(f"Unknown schema format: {format}")
    return converter(recap_struct)""")], "recap/server/gateway.py": [("""    children = commands.ls(url)
    if children is not None:
        return children
    raise HTTPException(status_code=404, detail="URL not found")
""", """    if (children := commands.ls(url)) is None:
        raise HTTPException(status_code=404, detail="URL not found")
    return children
"""), ("""    content_type = request.headers.get("content-type") or "application/x-recap+json"
    if format := commands.FORMAT_MAP.get(content_type):
        return commands.schema(url, format)
    else:
        raise HTTPException(
            status_code=415,
            detail=f"Unsupported content type: {content_type}",
        )
""", """    content_type = request.headers.get("content-type") or "application/x-recap+json"
    format = commands.FORMAT_MAP.get(content_type)
    if format is None:
        raise HTTPException(415, f"Unsupported content type: {content_type}")
    return commands.schema(url, format=format)
""")]})
if __name__ == "__main__":
    main(sys.argv[1:])
