import sys; sys.path.insert(0, "/verif")
from tools.refactor import ref, main
T = "recap/types.py"
AV = "recap/converters/avro.py"
JS = "recap/converters/json_schema.py"
PB = "recap/converters/protobuf.py"
ref("R17", ["C01", "C03", "C07"], {T: [("""                recap_type = IntType(**type_dict)
            case "float":
                if "bits" not in type_dict:
                    raise ValueError("'bits' attribute is required for 'float' type.")
                recap_type = FloatType(**type_dict)
""", """                recap_type = _build(IntType, type_dict)
            case "float":
                if "bits" not in type_dict:
                    raise ValueError("'bits' attribute is required for 'float' type.")
                recap_type = _build(FloatType, type_dict)
"""), ("""                recap_type = UnionType(
                    [from_dict(t, registry) for t in type_dict.pop("types")],
                    **type_dict,
                )
            case _:
                recap_type""", """                members = tuple(
                    partial(from_dict, registry=registry)(t)
                    for t in type_dict.pop("types")
                )
                recap_type = UnionType([*members], **type_dict)
            case _:
                recap_type"""), ("""def from_dict(
    type_dict""", """@contextmanager
def _context(message):
    try:
        yield
    except TypeError as e:
        raise TypeError(f"{message}: {e}") from e


def _build(cls, attrs):
    kwargs = OrderedDict(sorted(attrs.items(), key=itemgetter(0)))
    with _context(cls.__name__):
        return cls(**kwargs)


def from_dict(
    type_dict"""), ("""import inspect
""", """import inspect
from collections import ChainMap, OrderedDict
from contextlib import contextmanager
from functools import lru_cache, partial
from itertools import chain
from operator import itemgetter
"""), ("""        for cls in recap_type_class.__mro__[:-1]:  # Exclude 'object' class
            sig = inspect.signature(cls.__init__)

            param_defaults.update(
                {
                    # rstrip is for removing '_' from 'bytes_'
                    k.rstrip("_"): v.default
                    for k, v in sig.parameters.items()
                    if v.default is not inspect.Parameter.empty
                }
            )
""", """        param_defaults.update(
            chain.from_iterable(
                _defaults_of(cls) for cls in recap_type_class.__mro__[:-1]
            )
        )
"""), ("""def clean_dict(type_dict: dict | list | str) -> dict | list | str:
""", """@lru_cache(maxsize=None)
def _defaults_of(cls):
    sig = inspect.signature(cls.__init__)
    return tuple(
        (k.rstrip("_"), v.default)
        for k, v in sig.parameters.items()
        if v.default is not inspect.Parameter.empty
    )


def clean_dict(type_dict: dict | list | str) -> dict | list | str:
"""), ("""        attributes = {k: v for k, v in attributes.items() if v is not None}
        # Add attributes to the type_dict.
        type_dict |= attributes
""", """        for k in [k for k, v in attributes.items() if v is None]:
            del attributes[k]
        # Add attributes to the type_dict.
        type_dict = dict(ChainMap(attributes, type_dict))
""")]})
ref("R18", ["C08", "C09"], {AV: [("""            case {"type": "null"}:
                return_type = NullType(alias=alias, **extra_attrs)
            case {"type": "boolean"}:
                return_type = BoolType(alias=alias, **extra_attrs)
            case {"type": "int"}:
                return_type = IntType(32, signed=True, alias=alias, **extra_attrs)
            case {"type": "long"}:
                return_type = IntType(64, signed=True, alias=alias, **extra_attrs)
            case {"type": "float"}:
                return_type = FloatType(32, alias=alias, **extra_attrs)
            case {"type": "double"}:
                return_type = FloatType(64, alias=alias, **extra_attrs)
            case {"type": "bytes"}:
                return_type = BytesType(
                    9_223_372_036_854_775_807,
                    alias=alias,
                    **extra_attrs,
                )
""", """            case {"type": str(primitive)} if primitive in PRIMITIVES:
                factory = PRIMITIVES[primitive]
                return_type = factory(alias=alias, **extra_attrs)
"""), ("""class AvroConverter:
""", """PRIMITIVES = {
    "null": NullType,
    "boolean": BoolType,
    "int": partial(IntType, 32, signed=True),
    "long": partial(IntType, 64, signed=True),
    "float": lambda **attrs: FloatType(32, **attrs),
    "double": lambda **attrs: FloatType(64, **attrs),
    "bytes": partial(BytesType, 9_223_372_036_854_775_807),
}


class AvroConverter:
"""), ("""from typing import Any
""", """from functools import partial
from typing import Any
"""), ("""            case IntType(bits=int(bits), signed=True, logical=str(logical)) if (
                bits <= 64
                and logical == "build.recap.Timestamp"
                and recap_type.extra_attrs.get("unit") == "millisecond"
            ):
                return {
                    "type": "long",
                    "logicalType": "timestamp-millis",
                }
            case IntType(bits=int(bits), signed=True, logical=str(logical)) if (
                bits <= 64
                and logical == "build.recap.Timestamp"
                and recap_type.extra_attrs.get("unit") == "microsecond"
            ):
                return {
                    "type": "long",
                    "logicalType": "timestamp-micros",
                }
""", """            case IntType(
                bits=int(bits),
                signed=True,
                logical="build.recap.Timestamp",
                extra_attrs={"unit": ("millisecond" | "microsecond") as unit},
            ) if bits <= 64:
                return dict(
                    type="long",
                    logicalType=f"timestamp-{unit.removesuffix('second')}s",
                )
"""), ("""                precision = len(str(2 ** (bits - (1 if signed else 0)))) - 1
""", """                precision = len("%d" % (1 << (bits - int(signed)))) - 1
"""), ("""                for struct_field in struct_fields:
                    record_field = {}
                    field_type = self._from_recap(struct_field)
                    if isinstance(field_type, dict):
                        record_field |= field_type
                    elif isinstance(field_type, str):
                        record_field["type"] = field_type
                    else:
                        raise ValueError(f"Unexpected field type: {field_type}")
                    record_fields.append(record_field)
""", """                record_fields.extend(self._record_fields(struct_fields))
"""), ("""    def _from_recap_logical(""", """    def _record_fields(self, struct_fields):
        i = 0
        while i < len(struct_fields):
            match self._from_recap(struct_fields[i]):
                case dict() as field:
                    yield {**field}
                case str(type_):
                    yield {"type": type_}
                case other:
                    raise ValueError(f"Unexpected field type: {other}")
            i += 1

    def _from_recap_logical(""")]})
ref("R19", ["C10", "C11"], {JS: [("""            case {"type": "string", "format": "bytes"}:
                return BytesType(**extra_attrs)
            case {"type": "string", "format": "date"}:
                return StringType(logical="org.iso.8601.Date", **extra_attrs)
            case {"type": "string", "format": "date-time"}:
                return StringType(logical="org.iso.8601.DateTime", **extra_attrs)
            case {"type": "string", "format": "time"}:
                return StringType(logical="org.iso.8601.Time", **extra_attrs)
            case {"type": "string"}:
                return StringType(**extra_attrs)
""", """            case {"type": "string"}:
                format_ = json_schema.get("format")
                if format_ == "bytes":
                    return BytesType(**extra_attrs)
                logical = {"date": "Date", "date-time": "DateTime", "time": "Time"}
                if isinstance(format_, str) and format_ in logical:
                    extra_attrs["logical"] = "org.iso.8601." + logical[format_]
                return StringType(**extra_attrs)
"""), ("""                fields = []
                for name, prop in properties.items():
                    field = self._parse(prop, alias_strategy)
                    # If not explicitly required, make optional by ensuring the
                    # field is nullable, and has a default
                    if name not in json_schema.get("required", []):
                        if not field.is_nullable():
                            field = field.make_nullable()
                        # is_nullable doesn't guarantee a default of none, so
                        # set it here.
                        if "default" not in field.extra_attrs:
                            field.extra_attrs["default"] = None

                    field.extra_attrs["name"] = name
                    fields.append(field)
                return StructType(fields, **extra_attrs)
""", """                required = set(json_schema.get("required", []))
                return StructType(
                    [
                        self._parse_property(name, prop, name in required, alias_strategy)
                        for name, prop in properties.items()
                    ],
                    **extra_attrs,
                )
"""), ("""    def from_recap(self, recap_type: RecapType) -> dict[str, Any]:
""", """    def _parse_property(self, name, prop, required, alias_strategy):
        field = self._parse(prop, alias_strategy)
        if not required:
            field = field if field.is_nullable() else field.make_nullable()
            field.extra_attrs.setdefault("default", None)
        field.extra_attrs |= {"name": name}
        return field

    def from_recap(self, recap_type: RecapType) -> dict[str, Any]:
"""), ("""        defs = {}

        # A ProxyType references""", """        defs: dict[str, Any] = {}

        # A ProxyType references"""), ("""        if isinstance(recap_type, StructType):
            for field in recap_type.fields:
                defs |= self._generate_alias_defs(field)
        elif isinstance(recap_type, ListType):
            defs |= self._generate_alias_defs(recap_type.values)
        elif isinstance(recap_type, UnionType):
            for value in recap_type.types:
                defs |= self._generate_alias_defs(value)
        elif isinstance(recap_type, MapType):
            defs |= self._generate_alias_defs(recap_type.values)

        return defs
""", """        for child in self._children(recap_type):
            defs.update(self._generate_alias_defs(child))

        return defs

    @staticmethod
    def _children(recap_type):
        match recap_type:
            case StructType(fields=children) | UnionType(types=children):
                yield from children
            case ListType(values=child) | MapType(values=child):
                yield child
"""), ("""        domain_parts = parsed.netloc.split(".")
        domain_parts.reverse()
        domain = ".".join(domain_parts)
""", """        domain = ".".join(reversed(parsed.netloc.split(".")))
"""), ("""        path = re.sub(r"[^a-zA-Z0-9]", ".", path)
        path = path.lower()
""", """        path = "".join(
            c if "a" <= c <= "z" or "0" <= c <= "9" else "." for c in _ascii_lower(path)
        )
"""), ("""AliasStrategy = """, """def _ascii_lower(s):
    return "".join(c.lower() if "A" <= c <= "Z" else c for c in s)


AliasStrategy = """)]})
ref("R20", ["C12", "C13"], {PB: [("""        for element in message.elements:
            if isinstance(element, Field):
                recap_type = self._parse_field(element)
                fields.append(recap_type)
            elif isinstance(element, MapField):
                recap_type = self._parse_map_field(element)
                fields.append(recap_type)
            elif isinstance(element, OneOf):
                recap_type = self._parse_oneof(element)
                fields.append(recap_type)
            elif isinstance(element, Message):
                self._parse_message(element)
            elif isinstance(element, Enum):
                self._parse_enum(element)
""", """        parsers = {
            Field: (self._parse_field, True),
            MapField: (self._parse_map_field, True),
            OneOf: (self._parse_oneof, True),
            Message: (self._parse_message, False),
            Enum: (self._parse_enum, False),
        }
        for element in message.elements:
            parser, is_field = parsers.get(type(element), (None, False))
            if parser is None:
                continue
            recap_type = parser(element)
            if is_field:
                fields.append(recap_type)
"""), ("""        symbols = []
        for element in enum.elements:
            if isinstance(element, EnumValue):
                symbols.append(element.name)
""", """        symbols = [e.name for e in enum.elements if isinstance(e, EnumValue)]
"""), ("""                elements: list[EnumElement] = [
                    EnumValue(symbol, idx)
                    for symbol, idx in zip(
                        recap_type.symbols, range(len(recap_type.symbols))
                    )
                ]
""", """                elements: list[EnumElement] = []
                for idx, symbol in enumerate(symbols):
                    elements.append(EnumValue(name=symbol, number=idx))
"""), ("""            case UnionType(types=types):
                for type_ in types:
                    self._from_recap_gather_types(type_, package_to_types)
            case MapType(keys=keys, values=values):
                self._from_recap_gather_types(keys, package_to_types)
                self._from_recap_gather_types(values, package_to_types)
""", """            case UnionType() | MapType():
                children = (
                    recap_type.types
                    if isinstance(recap_type, UnionType)
                    else [recap_type.keys, recap_type.values]
                )
                for child in children:
                    self._from_recap_gather_types(
                        recap_type=child, package_to_types=package_to_types
                    )
"""), ("""                alias = (
                    protobuf_type.removeprefix(".")
                    if "." in protobuf_type
                    else f"{self.namespaces[-1]}.{protobuf_type}"
                )
                return ProxyType(alias, self.registry)
""", """                head, dot, tail = protobuf_type.partition(".")
                if not dot:
                    alias = ".".join([self.namespaces[-1], protobuf_type])
                elif head:
                    alias = protobuf_type
                else:
                    alias = tail
                return ProxyType(alias, self.registry)
""")]})
ref("R21", ["C16", "C15"], {"recap/converters/dbapi.py": [("""        match = re.search(r"\\((.*?)\\)", col_type)
        if match:
            return [p.strip() for p in match.group(1).split(",")]
        return None
""", """        start = col_type.find("(")
        end = col_type.find(")", start)
        if start < 0 or end < 0:
            return None
        return [p.strip() for p in col_type[start + 1 : end].split(",")]
"""), ("""        match params:
            case [unit, *_] if int(unit) == 0:
                return "second"
            case [unit, *_] if int(unit) <= 3:
                return "millisecond"
            case [unit, *_] if int(unit) <= 6:
                return "microsecond"
""", """        if not params:
            return None
        precision = int(params[0])
        for limit, unit in ((0, "second"), (3, "millisecond"), (6, "microsecond")):
            if (precision == 0) if limit == 0 else precision <= limit:
                return unit
"""), ("""            is_nullable = column["IS_NULLABLE"].upper() == "YES"
""", """            is_nullable = column["IS_NULLABLE"].casefold() in ("yes",)
""")]})
ref("R22", ["C17", "C27"], {"recap/clients/sqlite.py": [("""        quoted_table = table.replace('"', '""')
        cursor.execute(f'PRAGMA table_info("{quoted_table}");')
        names""", """        cursor.execute("SELECT * FROM pragma_table_info(?)", [table])
        names"""), ("""            "SELECT name FROM sqlite_master WHERE type='table' AND name=?", (table,)
        )
        return bool(cursor.fetchone())
""", """            "SELECT name FROM sqlite_master WHERE type='table' AND (name = :table)",
            {"table": table},
        )
        return len(cursor.fetchall()) > 0
""")], "recap/clients/dbapi.py": [("""                WHERE catalog_name = {self.param_style}
            \"\"\",
            (catalog,),
        )
        return [row[0] for row in cursor.fetchall()]
""", """                WHERE catalog_name IN ({self.param_style})
            \"\"\",
            (catalog,),
        )
        return list(map(lambda row: row[0], cursor.fetchall()))
""")]})
ref("R23", ["C20", "C21", "C22"], {"recap/settings.py": [("""    return f"{normpath(path)}/".startswith(f"{normpath(parent).rstrip('/')}/")
""", """    path, parent = PurePosixPath(normpath(path)), PurePosixPath(normpath(parent))
    return path == parent or parent in path.parents
"""), ("""from pathlib import Path
""", """from pathlib import Path, PurePosixPath
""")], "recap/clients/__init__.py": [("""    if username := parsed_url.username:
        parsed_dict["username"] = parsed_dict["user"] = unquote(username)

    if password := parsed_url.password:
        parsed_dict["password"] = unquote(password)

    if hostname := parsed_url.hostname:
        parsed_dict["host"] = hostname
""", """    for attr, alias in (("username", "user"), ("password", None), ("hostname", "host")):
        value = getattr(parsed_url, attr)
        if not value:
            continue
        if attr != "hostname":
            value = unquote(value)
        parsed_dict[attr] = value
        if alias is not None:
            parsed_dict[alias] = value
"""), ("""        dialect, driver = parsed_dict["scheme"].split("+")
        parsed_dict["dialect"] = dialect
        parsed_dict["driver"] = driver
        url = url.replace(f"{dialect}+{driver}://", f"{dialect}://")
""", """        dialect, driver = parsed_dict["scheme"].split("+")
        parsed_dict.update(dialect=dialect, driver=driver)
        url = url.replace("{}+{}://".format(dialect, driver), "%s://" % dialect)
""")]})
ref("R24", ["C23", "C24", "C25", "C26"], {"recap/storage/registry.py": [("""            return sorted(
                [
                    int(Path(file_path).stem)
                    for file_path in self.fs.ls(path_without_version, detail=False)
                ]
            )
        except FileNotFoundError:
            return None
""", """            files = self.fs.ls(path_without_version, detail=False)
        except FileNotFoundError:
            return None
        numbers = {int(file.rsplit("/", 1)[-1].removesuffix(".json")) for file in files}
        return sorted(numbers)
"""), ("""        if version is None:
            version = (self.latest(name) or 0) + 1
""", """        version = self._next(name) if version is None else version
"""), ("""    def latest(self, name: str) -> int | None:
        versions = self.versions(name)
        if not versions:
            return None
        return max(versions)
""", """    def latest(self, name: str) -> int | None:
        versions = self.versions(name)
        return versions[-1] if versions else None

    def _next(self, name: str) -> int:
        return 1 + max(self.versions(name) or [0])
""")]})
if __name__ == "__main__":
    main(sys.argv[1:])
