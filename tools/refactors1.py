import sys; sys.path.insert(0, "/verif")
from tools.refactor import ref, main
T = "recap/types.py"
ref("R01", ["C01", "C02"], {T: [("""        param_defaults = {}

        # Get defaults from all parent classes
        for cls in recap_type_class.__mro__[:-1]:  # Exclude 'object' class
            sig = inspect.signature(cls.__init__)

            param_defaults.update(
                {
                    # rstrip is for removing '_' from 'bytes_'
                    k.rstrip("_"): v.default
                    for k, v in sig.parameters.items()
                    if v.default is not inspect.Parameter.empty
                }
            )

        # Remove defaults from dictionary
        type_dict = {
            k: v
            for k, v in type_dict.items()
            if k not in param_defaults or param_defaults[k] != v
        }
""", """        param_defaults = _param_defaults(recap_type_class)

        # Remove defaults from dictionary
        cleaned = {}
        for k, v in type_dict.items():
            if k in param_defaults and param_defaults[k] == v:
                continue
            cleaned[k] = v
        type_dict = cleaned
"""), ("""def clean_dict(type_dict: dict | list | str) -> dict | list | str:
""", """@functools.lru_cache(maxsize=None)
def _param_defaults(recap_type_class: type) -> dict[str, Any]:
    defaults: dict[str, Any] = {}
    for cls in recap_type_class.__mro__:
        if cls is object:
            continue
        for param in inspect.signature(cls.__init__).parameters.values():
            if param.default is inspect.Parameter.empty:
                continue
            name = param.name
            while name.endswith("_"):
                name = name[:-1]
            defaults[name] = param.default
    return defaults


def clean_dict(type_dict: dict | list | str) -> dict | list | str:
"""), ("import copy\nimport inspect\n", "import copy\nimport functools\nimport inspect\n")]})
ref("R02", ["C01", "C02", "C06"], {T: [("""        if not list(filter(lambda t: isinstance(t, NullType), type_copy.types)):
            type_copy.types.insert(0, NullType())
        return type_copy
""", """        if not type_copy.is_nullable():
            type_copy.types[:0] = [NullType()]
        return type_copy
"""), ("""            for t in self.types:
                if isinstance(t, NullType):
                    return True

            return False

        return isinstance(self, NullType)
""", """            return any(isinstance(t, NullType) for t in self.types)
        else:
            return isinstance(self, NullType)
"""), ("""        attrs = vars(self)
        # Filter private attributes
        attrs = {k: v for k, v in attrs.items() if not k.startswith("_")}
        attrs.pop("type_", None)
        # Move doc to the union type
        doc = attrs.pop("doc", None)
""", """        attrs = dict(
            (key, value)
            for key, value in self.__dict__.items()
            if key[:1] != "_" and key != "type_"
        )
        # Move doc to the union type
        doc = attrs.pop("doc", None)
""")]})
ref("R03", ["C01", "C02", "C05"], {T: [("""    # If there's a matching alias, replace the type_dict with it
    for alias, alias_type in registry._type_registry.items():
        if recap_type == alias_type:
            return {"type": alias}

    # Otherwise, recurse on nested type_dicts
    for key in ["values", "keys", "fields", "types"]:
        if key in type_dict:
            if isinstance(type_dict[key], list):
                type_dict[key] = [
                    alias_dict(t, registry) if isinstance(t, dict) else t
                    for t in type_dict[key]
                ]
            elif isinstance(type_dict[key], dict):
                type_dict[key] = alias_dict(type_dict[key], registry)

    return type_dict
""", """    # If there's a matching alias, replace the type_dict with it
    match_ = next(
        (name for name, t in registry._type_registry.items() if t == recap_type), None
    )
    if match_ is not None:
        return dict(type=match_)

    def recurse(nested):
        if isinstance(nested, dict):
            return alias_dict(nested, registry)
        if isinstance(nested, list):
            return [alias_dict(t, registry) if isinstance(t, dict) else t for t in nested]
        return nested

    # Otherwise, recurse on nested type_dicts
    for key in type_dict.keys() & {"values", "keys", "fields", "types"}:
        type_dict[key] = recurse(type_dict[key])

    return type_dict
"""), ("""        try:
            return self._type_registry[alias]
        except KeyError:
            raise TypeError(f"No RecapType with alias {alias} found.")
""", """        found = self._type_registry.get(alias)
        if found is None:
            raise TypeError(f"No RecapType with alias {alias} found.")
        return found
""")]})
ref("R04", ["C01", "C03", "C04", "C07"], {T: [("""                if "bytes" in type_dict:
                    type_dict["bytes_"] = type_dict.pop("bytes")
                recap_type = StringType(**type_dict)
            case "bytes":
                if "bytes" in type_dict:
                    type_dict["bytes_"] = type_dict.pop("bytes")
                recap_type = BytesType(**type_dict)
""", """                recap_type = StringType(**_rename_bytes(type_dict))
            case "bytes":
                recap_type = BytesType(**_rename_bytes(type_dict))
"""), ("""def from_dict(
    type_dict: dict | list | str,
""", """def _rename_bytes(attrs: dict) -> dict:
    return {("bytes_" if k == "bytes" else k): v for k, v in attrs.items()}


def from_dict(
    type_dict: dict | list | str,
"""), ("""                type_dict["fields"] = [
                    from_dict(f, registry) for f in type_dict.get("fields", [])
                ]
                recap_type = StructType(**type_dict)
""", """                fields = []
                for f in type_dict.pop("fields", None) or []:
                    fields += [from_dict(f, registry)]
                recap_type = StructType(fields, **type_dict)
"""), ("""    def __eq__(self, other):
        return super().__eq__(other) and (self.values, self.length, self.variable) == (
            other.values,
            other.length,
            other.variable,
        )
""", """    def __eq__(self, other):
        if not super().__eq__(other):
            return False
        return all(
            getattr(self, a) == getattr(other, a)
            for a in ("length", "variable", "values")
        )
"""), ("""        if type(self) is type(other):
            return (
                self.type_,
                self.logical,
                self.alias,
                self.doc,
                self.extra_attrs,
            ) == (other.type_, other.logical, other.alias, other.doc, other.extra_attrs)
        return False
""", """        if self.__class__ != other.__class__:
            return False
        for attr in ("type_", "logical", "alias", "doc", "extra_attrs"):
            if getattr(self, attr) != getattr(other, attr):
                return False
        return True
"""), ("""        for field in self.fields:
            field.validate()


class EnumType""", """        list(map(lambda field: field.validate(), self.fields))


class EnumType"""), ("""        if not self.variable and self.length is None:
            raise ValueError("Fixed length lists must have a length set")
        if self.length is not None and (
            self.length < 1 or self.length > 9_223_372_036_854_775_807
        ):
            raise ValueError(
                "List length must be between 0 and 9,223,372,036,854,775,807"
            )
        self.values.validate()
""", """        if self.length is None:
            if not self.variable:
                raise ValueError("Fixed length lists must have a length set")
        elif self.length not in range(1, 1 << 63):
            raise ValueError(
                "List length must be between 0 and 9,223,372,036,854,775,807"
            )
        self.values.validate()
""")]})
AV = "recap/converters/avro.py"
ref("R05", ["C08", "C09"], {AV: [("""            case IntType(bits=int(bits), signed=True) if bits <= 32:
                avro_schema["type"] = "int"
            case IntType(bits=int(bits), signed=bool(signed)) if (
                bits <= 32 and not signed
            ) or (bits <= 64 and signed):
                avro_schema["type"] = "long"
            case IntType(bits=int(bits), signed=bool(signed)):
                precision = len(str(2 ** (bits - (1 if signed else 0)))) - 1
                avro_schema |= {
                    "type": "bytes",
                    "logicalType": "decimal",
                    "precision": precision,
                }
            case FloatType(bits=int(bits)) if bits <= 32:
                avro_schema["type"] = "float"
            case FloatType(bits=int(bits)) if bits <= 64:
                avro_schema["type"] = "double"
""", """            case IntType():
                avro_schema.update(self._int_schema(recap_type))
            case FloatType() if recap_type.bits <= 64:
                avro_schema["type"] = "double" if recap_type.bits > 32 else "float"
"""), ("""    def _from_recap_logical(self, recap_type: RecapType) -> dict[str, Any]:
""", """    @staticmethod
    def _int_schema(int_type: IntType) -> dict[str, Any]:
        # An unsigned integer needs one bit more than a signed one.
        value_bits = int_type.bits - 1 if int_type.signed else int_type.bits
        if value_bits < 32 and int_type.signed:
            return {"type": "int"}
        if int_type.bits <= (64 if int_type.signed else 32):
            return {"type": "long"}
        digits = 0
        while 10 ** (digits + 1) <= 2**value_bits:
            digits += 1
        return {"type": "bytes", "logicalType": "decimal", "precision": digits}

    def _from_recap_logical(self, recap_type: RecapType) -> dict[str, Any]:
"""), ("""                avro_schema["type"] = "record"
                record_fields = []
                for struct_field in struct_fields:
                    record_field = {}
                    field_type = self._from_recap(struct_field)
                    if isinstance(field_type, dict):
                        record_field |= field_type
                    elif isinstance(field_type, str):
                        record_field["type"] = field_type
                    else:
                        raise ValueError(f"Unexpected field type: {field_type}")
                    record_fields.append(record_field)
                avro_schema["fields"] = record_fields
""", """                avro_schema["type"] = "record"
                avro_schema["fields"] = [
                    {"type": f} if isinstance(f, str) else f
                    for f in map(self._from_recap, struct_fields)
                ]
"""), ("""        match logical_type:
            case "decimal":
                return BytesType(""", """        times = {
            "time-millis": ("build.recap.Time", 32, "millisecond"),
            "time-micros": ("build.recap.Time", 64, "microsecond"),
            "timestamp-millis": ("build.recap.Timestamp", 64, "millisecond"),
            "timestamp-micros": ("build.recap.Timestamp", 64, "microsecond"),
            "date": ("build.recap.Date", 32, "day"),
        }
        if logical_type in times:
            logical, bits, unit = times[logical_type]
            return IntType(bits, True, logical=logical, unit=unit, **extra_attrs)
        match logical_type:
            case "decimal":
                return BytesType("""), ("""            if "." in avro_schema["name"]:
                namespace, name = avro_schema["name"].rsplit(".", 1)
""", """            prefix, dot, last = name.rpartition(".")
            if dot:
                namespace, name = prefix, last
""")]})
JS = "recap/converters/json_schema.py"
ref("R06", ["C10", "C11"], {JS: [("""        if isinstance(recap_type, StructType):
            for field in recap_type.fields:
                defs |= self._generate_alias_defs(field)
        elif isinstance(recap_type, ListType):
            defs |= self._generate_alias_defs(recap_type.values)
        elif isinstance(recap_type, UnionType):
            for value in recap_type.types:
                defs |= self._generate_alias_defs(value)
        elif isinstance(recap_type, MapType):
            defs |= self._generate_alias_defs(recap_type.values)

        return defs
""", """        for child in self._children(recap_type):
            defs.update(self._generate_alias_defs(child))

        return defs

    @staticmethod
    def _children(recap_type: RecapType) -> list[RecapType]:
        match recap_type:
            case StructType(fields=children) | UnionType(types=children):
                return list(children)
            case ListType(values=child) | MapType(values=child):
                return [child]
        return []
"""), ("""            case StructType():
                type_dict |= {"type": "object", "properties": {}}
                for field in field.fields:
                    if field_name := field.extra_attrs.get("name"):
                        type_dict["properties"][field_name] = self._convert_field(field)

                        if not isinstance(field, UnionType) or not field.is_optional:
                            type_dict.setdefault("required", []).append(field_name)
                    else:
                        raise ValueError(f"Field {field} has no name")
""", """            case StructType(fields=fields):
                for f in fields:
                    if not f.extra_attrs.get("name"):
                        raise ValueError(f"Field {f} has no name")
                properties = {
                    f.extra_attrs["name"]: self._convert_field(f) for f in fields
                }
                required = [
                    f.extra_attrs["name"]
                    for f in fields
                    if not (isinstance(f, UnionType) and f.is_optional)
                ]
                type_dict.update(type="object", properties=properties)
                if len(required) > 0:
                    type_dict["required"] = required
"""), ("""                    if name not in json_schema.get("required", []):
                        if not field.is_nullable():
                            field = field.make_nullable()
                        # is_nullable doesn't guarantee a default of none, so
                        # set it here.
                        if "default" not in field.extra_attrs:
                            field.extra_attrs["default"] = None
""", """                    is_required = name in json_schema.get("required", [])
                    if not is_required:
                        field = field if field.is_nullable() else field.make_nullable()
                        field.extra_attrs.setdefault("default", None)
"""), ("""        domain_parts = parsed.netloc.split(".")
        domain_parts.reverse()
        domain = ".".join(domain_parts)

        # Replace special characters in the path, convert to lowercase
        path = parsed.path + parsed.fragment
        path = re.sub(r"[^a-zA-Z0-9]", ".", path)
        path = path.lower()
""", """        domain = ".".join(reversed(parsed.netloc.split(".")))

        # Replace special characters in the path, convert to lowercase
        path = "".join(
            c.lower() if c.isascii() and c.isalnum() else "."
            for c in parsed.path + parsed.fragment
        )
""")]})
PB = "recap/converters/protobuf.py"
ref("R07", ["C12", "C13"], {PB: [("""            case "int32":
                return IntType(bits=32)
            case "int64":
                return IntType(bits=64)
            case "uint32":
                return IntType(bits=32, signed=False)
            case "uint64":
                return IntType(bits=64, signed=False)
            case "sint32":
                return IntType(bits=32)
            case "sint64":
                return IntType(bits=64)
            case "float":""", """            case (
                "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64"
            ) as int_type:
                return IntType(
                    bits=int(int_type[-2:]), signed=not int_type.startswith("u")
                )
            case "float":"""), ("""                    EnumValue(symbol, idx)
                    for symbol, idx in zip(
                        recap_type.symbols, range(len(recap_type.symbols))
                    )
""", """                    EnumValue(name=symbol, number=number)
                    for number, symbol in enumerate(symbols)
"""), ("""        for element in message.elements:
            if isinstance(element, Field):
                recap_type = self._parse_field(element)
                fields.append(recap_type)
            elif isinstance(element, MapField):
                recap_type = self._parse_map_field(element)
                fields.append(recap_type)
            elif isinstance(element, OneOf):
                recap_type = self._parse_oneof(element)
                fields.append(recap_type)
            elif isinstance(element, Message):
                self._parse_message(element)
            elif isinstance(element, Enum):
                self._parse_enum(element)
""", """        field_parsers = {
            Field: self._parse_field,
            MapField: self._parse_map_field,
            OneOf: self._parse_oneof,
        }
        for element in message.elements:
            if parse := field_parsers.get(type(element)):
                fields.append(parse(element))
            elif isinstance(element, Message):
                self._parse_message(element)
            elif isinstance(element, Enum):
                self._parse_enum(element)
"""), ("""                original_cardinality = element.cardinality
                element.cardinality = FieldCardinality.REQUIRED
                recap_type = self._parse_field(element)
                element.cardinality = original_cardinality
                types.append(recap_type)
""", """                recap_type = self._protobuf_type_to_recap_type(element.type)
                recap_type.extra_attrs["name"] = element.name
                types.append(recap_type)
"""), ("""            case IntType(signed=bool(signed), bits=int(bits)) if signed and bits <= 32:
                return Field(field_name, field_number, "int32")
            case IntType(signed=bool(signed), bits=int(bits)) if signed and bits <= 64:
                return Field(field_name, field_number, "int64")
            case IntType(
                signed=bool(signed), bits=int(bits)
            ) if not signed and bits <= 32:
                return Field(field_name, field_number, "uint32")
            case IntType(
                signed=bool(signed), bits=int(bits)
            ) if not signed and bits <= 64:
                return Field(field_name, field_number, "uint64")
            case IntType():
                raise""", """            case IntType(bits=int(bits), signed=signed) if bits <= 64:
                width = 32 if bits <= 32 else 64
                prefix = "" if signed else "u"
                return Field(field_name, field_number, f"{prefix}int{width}")
            case IntType():
                raise""")]})
DB = "recap/converters/dbapi.py"
ref("R08", ["C15", "C16", "C17"], {DB: [("""        fields = []
        for column in columns:
            base_type = self._parse_type(column)
            is_nullable = column["IS_NULLABLE"].upper() == "YES"

            if is_nullable:
                base_type = base_type.make_nullable()

            if column["COLUMN_DEFAULT"] is not None or is_nullable:
                # TODO Convert default value to the correct type, not just a string
                base_type.extra_attrs["default"] = column["COLUMN_DEFAULT"]

            base_type.extra_attrs["name"] = column["COLUMN_NAME"]

            fields.append(base_type)

        return StructType(fields=fields)
""", """        return StructType([self._to_field(column) for column in columns])

    def _to_field(self, column: dict[str, Any]) -> RecapType:
        field = self._parse_type(column)
        default = column["COLUMN_DEFAULT"]
        attrs: dict[str, Any] = {"name": column["COLUMN_NAME"]}

        if column["IS_NULLABLE"].lower() in ("yes",):
            field = field.make_nullable()
            attrs["default"] = default
        elif default is not None:
            # TODO Convert default value to the correct type, not just a string
            attrs["default"] = default

        field.extra_attrs.update(attrs)
        return field
"""), ("""        match = re.search(r"\\((.*?)\\)", col_type)
        if match:
            return [p.strip() for p in match.group(1).split(",")]
        return None
""", """        start = col_type.find("(")
        end = col_type.find(")", start + 1)
        if start == -1 or end == -1:
            return None
        return list(map(str.strip, col_type[start + 1 : end].split(",")))
"""), ("import re\n", ""), ("""        match params:
            case [unit, *_] if int(unit) == 0:
                return "second"
            case [unit, *_] if int(unit) <= 3:
                return "millisecond"
            case [unit, *_] if int(unit) <= 6:
                return "microsecond"
""", """        if not params:
            return None
        digits = int(params[0])
        for limit, unit in ((0, "second"), (3, "millisecond"), (6, "microsecond")):
            if digits <= limit:
                return unit
        return None
""")],
 "recap/converters/mysql.py": [("""        if data_type == "bigint":
            # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
            base_type = IntType(bits=64, signed=signed)
        elif data_type in ["int", "integer"]:
            # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
            base_type = IntType(bits=32, signed=signed)
        elif data_type == "mediumint":
            # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
            base_type = IntType(bits=24, signed=signed)
        elif data_type == "smallint":
            # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
            base_type = IntType(bits=16, signed=signed)
        elif data_type == "tinyint":
            # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
            base_type = IntType(bits=8, signed=signed)
        elif""", """        int_bits = {
            "tinyint": 8,
            "smallint": 16,
            "mediumint": 24,
            "int": 32,
            "integer": 32,
            "bigint": 64,
        }

        if (bits := int_bits.get(data_type)) is not None:
            base_type = IntType(bits, signed)
        elif""")],
 "recap/converters/postgresql.py": [("""            byte_length = ceil(max_length / 8)
""", """            byte_length = -(-max_length // 8)
"""), ("from math import ceil\n", ""), ("""            data_type in ["text", "json", "jsonb"]
            or data_type.startswith("character varying")
            or data_type.startswith("varchar")
""", """            data_type.startswith(("character varying", "varchar"))
            or data_type in {"text", "json", "jsonb"}
"""), ("""        if ndims == 0:
            return UnionType(types=[NullType(), base_type])
        else:
            return ListType(
                values=self._create_n_dimension_list(base_type, ndims - 1),
            )
""", """        result: RecapType = UnionType(types=[NullType(), base_type])
        for _ in range(ndims):
            result = ListType(values=result)
        return result
""")]})
if __name__ == "__main__":
    main(sys.argv[1:])
