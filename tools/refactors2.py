import sys; sys.path.insert(0, "/verif")
from tools.refactor import ref, main
ref("R09", ["C17", "C15"], {"recap/clients/sqlite.py": [
("""        # Extract precision, scale, and octet length.
""", """        information_schema_cols.update(self._parse_params(row["TYPE"]))
        return {**row, **information_schema_cols}

    @staticmethod
    def _parse_params(type_: str) -> dict[str, Any]:
        params: dict[str, Any] = {}

        # Extract precision, scale, and octet length.
"""), ("""search(row["TYPE"])""", """search(type_)"""), ("""        if param_match:
            # Extract matched values
            _, precision, scale = param_match.groups()
            precision = int(precision)
            scale = int(scale) if scale else 0
""", """        if param_match is not None:
            precision = int(param_match.group(2))
            scale = int(param_match.group(3) or 0)
"""), ("""            match SQLiteConverter.get_affinity(row["TYPE"]):
                case SQLiteAffinity.INTEGER | SQLiteAffinity.REAL | SQLiteAffinity.NUMERIC:
                    information_schema_cols["NUMERIC_PRECISION"] = precision
                    information_schema_cols["NUMERIC_SCALE"] = scale
                case SQLiteAffinity.TEXT | SQLiteAffinity.BLOB:
                    information_schema_cols["CHARACTER_OCTET_LENGTH"] = precision

        return row | information_schema_cols
""", """            affinity = SQLiteConverter.get_affinity(type_)
            if affinity in (SQLiteAffinity.TEXT, SQLiteAffinity.BLOB):
                params["CHARACTER_OCTET_LENGTH"] = precision
            else:
                params["NUMERIC_PRECISION"] = precision
                params["NUMERIC_SCALE"] = scale

        return params
"""), ("""        return bool(cursor.fetchone())""", """        return cursor.fetchone() is not None"""),
("""SELECT name FROM sqlite_schema WHERE type='table'""", """select name from sqlite_master where type = 'table'"""),
("""        rows = []

        for row_cells in cursor.fetchall():
            row = dict(zip(names, row_cells))
            row = self.add_information_schema(row)
            rows.append(row)

        return self.converter.to_recap(rows)
""", """        return self.converter.to_recap(
            [
                self.add_information_schema(dict(zip(names, cells)))
                for cells in cursor.fetchall()
            ]
        )
"""),
], "recap/converters/sqlite.py": [("""        if not column_type:
            return SQLiteAffinity.BLOB
        elif "INT" in column_type:
            return SQLiteAffinity.INTEGER
        elif "CHAR" in column_type or "TEXT" in column_type or "CLOB" in column_type:
            return SQLiteAffinity.TEXT
        elif "BLOB" in column_type:
            return SQLiteAffinity.BLOB
        elif "REAL" in column_type or "FLOA" in column_type or "DOUB" in column_type:
            return SQLiteAffinity.REAL
        else:
            return SQLiteAffinity.NUMERIC
""", """        if column_type == "":
            return SQLiteAffinity.BLOB
        for affinity, words in (
            (SQLiteAffinity.INTEGER, ("INT",)),
            (SQLiteAffinity.TEXT, ("CHAR", "TEXT", "CLOB")),
            (SQLiteAffinity.BLOB, ("BLOB",)),
            (SQLiteAffinity.REAL, ("REAL", "FLOA", "DOUB")),
        ):
            if any(word in column_type for word in words):
                return affinity
        return SQLiteAffinity.NUMERIC
"""), ("""                if precision and precision <= 23:
                    return FloatType(bits=32)
                return FloatType(bits=64)
""", """                return FloatType(bits=32 if precision and precision < 24 else 64)
""")]})
ref("R10", ["C16"], {"recap/converters/snowflake.py": [("""            data_type.startswith("number")
            or data_type.startswith("decimal")
            or data_type.startswith("numeric")
        ):""", """            data_type.startswith(("number", "decimal", "numeric"))
        ):"""), ("""        elif (
            data_type.startswith("varchar")
            or data_type.startswith("string")
            or data_type.startswith("text")
            or data_type.startswith("nvarchar")
            or data_type.startswith("nvarchar2")
            or data_type.startswith("char varying")
            or data_type.startswith("nchar varying")
        ):
            base_type = StringType(bytes_=octet_length or 16_777_216, variable=True)
""", """        elif data_type.startswith(_VARIABLE):
            base_type = StringType(bytes_=octet_length or 16_777_216)
"""), ("""        elif data_type.startswith("timestamp") or data_type.startswith("datetime"):
            params = self._parse_parameters(data_type)
            unit = self._get_time_unit(params) or "nanosecond"
            base_type = IntType(
                bits=64,
                logical="build.recap.Timestamp",
                unit=unit,
            )
        elif data_type.startswith("time"):
            params = self._parse_parameters(data_type)
            unit = self._get_time_unit(params) or "nanosecond"
            base_type = IntType(bits=32, logical="build.recap.Time", unit=unit)
""", """        elif data_type.startswith(("time", "date")):
            is_timestamp = data_type.startswith(("timestamp", "datetime"))
            if not is_timestamp and not data_type.startswith("time"):
                raise ValueError(f"Unknown data type: {data_type}")
            base_type = IntType(
                bits=64 if is_timestamp else 32,
                logical="build.recap.Timestamp" if is_timestamp else "build.recap.Time",
                unit=self._unit_of(data_type),
            )
"""), ("""        return base_type
""", """        return base_type

    def _unit_of(self, data_type):
        return self._get_time_unit(self._parse_parameters(data_type)) or "nanosecond"
"""), ("""class Snow""", """_VARIABLE = (
    "varchar",
    "string",
    "text",
    "nvarchar",
    "char varying",
    "nchar varying",
)


class Snow""")]})
ref("R11", ["C18"], {"recap/converters/bigquery.py": [("""                case "FLOAT" | "FLOAT64":
                    field_type = FloatType(bits=64)
                case "BOOLEAN" | "BOOL":
                    field_type = BoolType()
""", """                case type_ if type_ in ("FLOAT", "FLOAT64"):
                    field_type = FloatType(bits=64)
                case type_ if type_ in {"BOOLEAN", "BOOL"}:
                    field_type = BoolType()
"""), ("""                case "NUMERIC" | "DECIMAL":
                    field_type = BytesType(
                        logical="build.recap.Decimal",
                        bytes_=16,
                        variable=False,
                        precision=field.precision or 38,
                        scale=field.scale or 0,
                    )
                case "BIGNUMERIC" | "BIGDECIMAL":
                    field_type = BytesType(
                        logical="build.recap.Decimal",
                        bytes_=32,
                        variable=False,
                        precision=field.precision or 76,
                        scale=field.scale or 0,
                    )
""", """                case "NUMERIC" | "DECIMAL":
                    field_type = self._decimal(field, 16, 38)
                case "BIGNUMERIC" | "BIGDECIMAL":
                    field_type = self._decimal(field, 32, 76)
"""), ("""            if field.mode == "REPEATED":
                field_type = ListType(field_type)
            if field.mode == "NULLABLE":
                field_type = field_type.make_nullable()
            if name := field.name:
                field_type.extra_attrs["name"] = name
            if description := field.description:
                field_type.doc = description
            if default := field.default_value_expression:
                field_type.extra_attrs["default"] = default

            recap_fields.append(field_type)

        return StructType(recap_fields)
""", """            wrap = {"REPEATED": ListType, "NULLABLE": lambda t: t.make_nullable()}
            field_type = wrap.get(field.mode, lambda t: t)(field_type)
            if field.description:
                field_type.doc = field.description
            field_type.extra_attrs.update(
                {
                    k: v
                    for k, v in [
                        ("name", field.name),
                        ("default", field.default_value_expression),
                    ]
                    if v
                }
            )
            recap_fields += [field_type]

        return StructType(fields=recap_fields)

    @staticmethod
    def _decimal(field, size, precision):
        return BytesType(
            size,
            False,
            logical="build.recap.Decimal",
            precision=field.precision or precision,
            scale=field.scale or 0,
        )
""")], "recap/clients/bigquery.py": [("""        return [table.table_id for table in self.client.list_tables(dataset_ref)]
""", """        tables = []
        for item in self.client.list_tables(dataset_ref):
            tables.append(item.table_id)
        return tables
""")]})
ref("R12", ["C14"], {"recap/converters/hive_metastore.py": [("""        fields: list[RecapType] = []
        for col in table.columns:
            recap_type = self._parse_schema(col)
            fields.append(recap_type)
        return StructType(fields=fields, name=table.name)
""", """        return StructType(
            fields=list(map(self._parse_schema, table.columns)),
            name=table.name,
        )
"""), ("""        if not isinstance(recap_type, UnionType) and not isinstance(
            recap_type,
            NullType,
        ):
            recap_type = recap_type.make_nullable()

        return recap_type
""", """        if isinstance(recap_type, (UnionType, NullType)):
            return recap_type
        return recap_type.make_nullable()
"""), ("""            flattened_types = []

            for union_subtype in recap_type.types:
                # We're not expecting string type aliases here.
                assert isinstance(union_subtype, RecapType)

                # Recursively flatten unions within unions
                flattened = self._flatten_unions(union_subtype)

                if isinstance(flattened, UnionType):
                    # Append types from inner union to the flattened types
                    flattened_types.extend(
                        [t for t in flattened.types if t not in flattened_types]
                    )
                elif flattened not in flattened_types:
                    # Append non-union types directly
                    flattened_types.append(flattened)
""", """            flattened_types: list[RecapType] = []

            for union_subtype in map(self._flatten_unions, recap_type.types):
                is_union = isinstance(union_subtype, UnionType)
                for t in union_subtype.types if is_union else [union_subtype]:
                    if t in flattened_types:
                        continue
                    flattened_types.append(t)
"""), ("""                types = [NullType()] + [self._parse_schema(t) for t in htype.types]
""", """                types = [NullType(), *(self._parse_schema(t) for t in types)]
""")], "recap/clients/hive_metastore.py": [("""        table_stats = [cs for cs in table_stats if cs.stats is not None]
        for col_stats in table_stats:
            recap_type""", """        for col_stats in filter(lambda cs: cs.stats is not None, table_stats):
            recap_type"""), ("""                case BooleanTypeStats():
                    recap_type.extra_attrs |= {
                        "true_count": col_stats.stats.numTrues,
                        "false_count": col_stats.stats.numFalses,
                    }
""", """                case BooleanTypeStats(numTrues=trues, numFalses=falses):
                    recap_type.extra_attrs["true_count"] = trues
                    recap_type.extra_attrs["false_count"] = falses
"""), ("""                case DecimalTypeStats():
                    stats: dict[str, Any] = {
                        "cardinality": col_stats.stats.cardinality,
                    }
                    if col_stats.stats.lowValue is not None:
                        stats["low"] = col_stats.stats.lowValue
                    if col_stats.stats.highValue is not None:
                        stats["high"] = col_stats.stats.highValue
                    recap_type.extra_attrs |= stats
""", """                case DecimalTypeStats():
                    bounds = {
                        "low": col_stats.stats.lowValue,
                        "high": col_stats.stats.highValue,
                    }
                    recap_type.extra_attrs.update(
                        {k: v for k, v in bounds.items() if v is not None},
                        cardinality=col_stats.stats.cardinality,
                    )
""")]})
ref("R13", ["C20", "C21", "C22"], {"recap/settings.py": [("""        safe_urls_list = []

        for url in self.urls:
            split_url = urlsplit(str(url))
            netloc = split_url.netloc

            if split_url.username or split_url.password:
                # Only remove the credentials. Rebuilding the netloc from its hostname
                # and port would lose the brackets of IPv6 addresses.
                netloc = netloc.rpartition("@")[2]

            safe_urls_list.append(
                _unsplit_url(
                    split_url.scheme,
                    netloc,
                    split_url.path.rstrip("/"),
                    split_url.query,
                    split_url.fragment,
                )
            )

        return safe_urls_list
""", """        return [self._safe(url.unicode_string()) for url in self.urls]

    @staticmethod
    def _safe(url: str) -> str:
        parts = urlsplit(url)
        return _unsplit_url(
            parts.scheme,
            parts.netloc.split("@")[-1],
            parts.path.rstrip("/"),
            parts.query,
            parts.fragment,
        )
"""), ("""    return f"{normpath(path)}/".startswith(f"{normpath(parent).rstrip('/')}/")
""", """    segments = [s for s in normpath(path).split("/") if s]
    parents = [s for s in normpath(parent).split("/") if s]
    return segments[: len(parents)] == parents
"""), ("""            if (
                unsafe_url_split.scheme == url_split.scheme
                and unsafe_url_split.hostname == url_split.hostname
                and unsafe_url_split.port == url_split.port
                and _is_subpath(url_path, unsafe_url_split.path or "/")
            ):
                netloc = unsafe_url_split.netloc

                # Merge query strings.
                # NOTE: This doesn't work for URLs that have multiple values
                # for the same key spanning both the unsafe and input URLs.
                unsafe_qs = parse_qs(unsafe_url_split.query)
                url_qs = parse_qs(url_split.query)
                merged_qs = unsafe_qs | url_qs
                query = urlencode(merged_qs, doseq=True)

                return _unsplit_url(
                    url_split.scheme,
                    netloc,
                    url_path.rstrip("/"),
                    query,
                    url_split.fragment or unsafe_url_split.fragment,
                )
""", """            if [getattr(unsafe_url_split, a) for a in attrs] != [
                getattr(url_split, a) for a in attrs
            ]:
                continue

            if not _is_subpath(url_path, unsafe_url_split.path or "/"):
                continue

            query = parse_qs(unsafe_url_split.query)
            query.update(parse_qs(url_split.query))

            return _unsplit_url(
                unsafe_url_split.scheme,
                unsafe_url_split.netloc,
                url_path.rstrip("/"),
                urlencode(query, doseq=True),
                url_split.fragment or unsafe_url_split.fragment,
            )
"""), ("""        url_path = Path(url_split.path or "/").as_posix()
""", """        url_path = str(Path(url_split.path or "/"))
        attrs = ("scheme", "hostname", "port")
""")], "recap/clients/__init__.py": [("""    if client_path := CLIENTS.get(scheme):
        module_path, class_name = client_path.rsplit(".", 1)
        module = import_module(module_path)
        client_class = getattr(module, class_name)
        with client_class.create(**url_args) as client:
            yield client
    else:
        raise ValueError(f"No clients available for scheme: {scheme}")
""", """    with _client_class(scheme).create(**url_args) as client:
        yield client
"""), ("""    if client_path := CLIENTS.get(scheme):
        module_path, class_name = client_path.rsplit(".", 1)
        module = import_module(module_path)
        client_class = getattr(module, class_name)
        connection_url, method_args = client_class.parse(method, **url_args)

        # Clients return URLs with their dialect (e.g. http://), but settings and
        # create_client need the scheme with the driver (e.g. http+csr://).
        if dialect := url_args.get("dialect"):
            connection_url = connection_url.replace(
                f"{dialect}://", f"{scheme}://", 1
            )

        return (settings.unsafe_url(connection_url, strict), method_args)
    else:
        raise ValueError(f"No clients available for scheme: {scheme}")
""", """    client_class = _client_class(scheme)
    connection_url, method_args = client_class.parse(method, **url_args)

    if dialect := url_args.get("dialect"):
        connection_url = connection_url.replace(f"{dialect}://", f"{scheme}://", 1)

    connection_url = settings.unsafe_url(connection_url, strict)
    return connection_url, method_args


def _client_class(scheme):
    client_path = CLIENTS.get(scheme)

    if not client_path:
        raise ValueError(f"No clients available for scheme: {scheme}")

    module_path, _, class_name = client_path.rpartition(".")
    return getattr(import_module(module_path), class_name)
"""), ("""    parsed_qs = parse_qs(parsed_dict["query"])
    parsed_qs = {
        key: value[0] if len(value) == 1 else value for key, value in parsed_qs.items()
    }
""", """    parsed_qs = {}
    for key, values in parse_qs(parsed_dict["query"]).items():
        parsed_qs[key] = values[0] if len(values) == 1 else values
"""), ("""    parsed_dict["paths"] = [path for path in parsed_dict["path"].split("/") if path]
""", """    parsed_dict["paths"] = list(filter(None, parsed_dict["path"].split("/")))
""")]})
ref("R14", ["C23", "C24", "C25", "C26"], {"recap/storage/registry.py": [("""        return sorted(
            [
                unquote_plus(file_path[len(self.root_path) + 1 :])
                for file_path in self.fs.ls(self.root_path, detail=False)
            ]
        )
""", """        names = []
        for file_path in self.fs.ls(self.root_path, detail=False):
            names.append(unquote_plus(os.path.basename(file_path)))
        names.sort()
        return names
"""), ("""        if version is None:
            versions = self.versions(name)
            if not versions:
                return None
            version = max(versions)

        try:
            with self.fs.open(f"{self.root_path}/{quoted_name}/{version}.json") as f:
                type_json = json.load(f)
                type_ = from_dict(type_json)
                return (type_, version)
        except FileNotFoundError:
            return None
""", """        if version is None:
            version = self.latest(name)
            if version is None:
                return None

        path = "/".join([self.root_path, quoted_name, f"{version}.json"])

        try:
            f = self.fs.open(path)
        except FileNotFoundError:
            return None

        with f:
            return from_dict(json.loads(f.read())), version
"""), ("""            version = (self.latest(name) or 0) + 1

        path_without_version = f"{self.root_path}/{quoted_name}"
        type_dict = to_dict(type_)
""", """            latest = self.latest(name)
            version = 1 if latest is None else latest + 1

        path_without_version = "/".join((self.root_path, quoted_name))
        type_json = json.dumps(to_dict(type_))
"""), ("""                json.dump(type_dict, f)
""", """                f.write(type_json)
"""), ("""                    int(Path(file_path).stem)
""", """                    int(os.path.splitext(os.path.basename(file_path))[0])
"""), ("""        versions = self.versions(name)
        if not versions:
            return None
        return max(versions)

    @""", """        return max(self.versions(name) or [], default=None)

    @"""), ("""import json
""", """import json
import os
""")], "recap/server/registry.py": [("""    if type_and_version := storage.get(name):
        type_, version = type_and_version
        return to_dict(type_), version
    else:
        raise HTTPException(status_code=404, detail="Not found")
""", """    return _found(storage.get(name))
"""), ("""    if type_and_version := storage.get(name, version):
        type_, version = type_and_version
        return to_dict(type_), version
    else:
        raise HTTPException(status_code=404, detail="Not found")
""", """    return _found(storage.get(name, version))
"""), ("""async def _request_to_type(""", """def _found(type_and_version):
    if type_and_version is None:
        raise HTTPException(status_code=404, detail="Not found")
    type_, version = type_and_version
    return to_dict(type_), version


async def _request_to_type("""), ("""    if storage.get(name, version):
        raise HTTPException(
            status_code=409,
            detail=f"Type {name} version {version} already exists",
        )

    return storage.put(name, type_, version)
""", """    if storage.get(name, version) is None:
        return storage.put(name, type_, version)

    raise HTTPException(
        status_code=409,
        detail=f"Type {name} version {version} already exists",
    )
"""), ("""    try:
        type_str = type_bytes.decode("utf-8")

        try:
            type_json = json.loads(type_str)
        except json.JSONDecodeError:
            # Assume payload is string alias if we can't decode as JSON.
            # If it's not, from_dict will fail below.
            type_json = type_str

        return from_dict(type_json)
    except Exception as e:
        raise HTTPException(
            status_code=400,
            detail=f"Failed to parse type: {e}",
        )
""", """    try:
        return _parse(type_bytes)
    except Exception as e:
        raise HTTPException(400, f"Failed to parse type: {e}") from e


def _parse(type_bytes: bytes) -> RecapType:
    type_json = str(type_bytes, "utf-8")
    try:
        type_json = json.loads(type_json)
    except ValueError:
        pass
    return from_dict(type_json)
""")]})
ref("R15", ["C28", "C29"], {"recap/clients/fs.py": [("""            return [p.name for p in Path(path).iterdir()]
""", """            return os.listdir(path)
"""), ("""            return Path(path).read_text()
""", """            with open(path.rstrip("/") or "/") as f:
                return f.read()
"""), ("""        suffix = Path(path).suffix.lower().strip(".")
""", """        suffix = Path(path).suffix.lower().removeprefix(".")
"""), ("""        path = "/"

        if split_url.netloc:
            path += split_url.netloc + "/"
        if split_url.path.startswith("/"):
            path += split_url.path[1:] + "/"
        elif split_url.path:
            # Relative to the working directory
            path = split_url.path + "/"
""", """        path = f"/{split_url.netloc}/" if split_url.netloc else "/"

        if split_url.path[:1] == "/":
            path = f"{path}{split_url.path[1:]}/"
        elif split_url.path:
            # Relative to the working directory
            path = f"{split_url.path}/"
"""), ("""from contextlib""", """import os
from contextlib""")], "recap/clients/confluent_registry.py": [("""        has_kv = subject.endswith("-key") or subject.endswith("-value")
        subject = subject if has_kv else f"{subject}-value"
""", """        if not subject.endswith(("-key", "-value")):
            subject += "-value"
"""), ("""        schema_str = registered_schema.schema.schema_str
        match registered_schema.schema.schema_type:
""", """        schema = registered_schema.schema
        schema_str = schema.schema_str
        match schema.schema_type:
""")], "recap/commands.py": [("""        recap_struct = client.schema(*method_args)
        output_obj: dict | str
        match format:
            case SchemaFormat.avro:
                from recap.converters.avro import AvroConverter

                output_obj = AvroConverter().from_recap(recap_struct)
            case SchemaFormat.json:
                from recap.converters.json_schema import JSONSchemaConverter

                output_obj = JSONSchemaConverter().from_recap(recap_struct)
            case SchemaFormat.protobuf:
                from proto_schema_parser.generator import Generator

                from recap.converters.protobuf import ProtobufConverter

                proto_file = ProtobufConverter().from_recap(recap_struct)
                proto_str = Generator().generate(proto_file)

                output_obj = proto_str
            case SchemaFormat.recap:
                from recap.types import to_dict

                struct_dict = to_dict(recap_struct)
                if not isinstance(struct_dict, dict):
                    raise ValueError(
                        f"Expected a schema dict, but got {type(struct_dict)}"
                    )
                output_obj = struct_dict
            case _:
                raise ValueError(f"Unknown schema format: {format}")
        return output_obj
""", """        return _convert(client.schema(*method_args), format)


def _convert(recap_struct, format) -> dict | str:
    if format == SchemaFormat.avro:
        from recap.converters.avro import AvroConverter

        return AvroConverter().from_recap(recap_struct)
    if format == SchemaFormat.json:
        from recap.converters.json_schema import JSONSchemaConverter

        return JSONSchemaConverter().from_recap(recap_struct)
    if format == SchemaFormat.protobuf:
        from proto_schema_parser.generator import Generator

        from recap.converters.protobuf import ProtobufConverter

        return Generator().generate(ProtobufConverter().from_recap(recap_struct))
    if format != SchemaFormat.recap:
        raise ValueError(f"Unknown schema format: {format}")

    from recap.types import to_dict

    struct_dict = to_dict(recap_struct)
    if isinstance(struct_dict, dict):
        return struct_dict
    raise ValueError(f"Expected a schema dict, but got {type(struct_dict)}")
""")], "recap/server/gateway.py": [("""    if format := commands.FORMAT_MAP.get(content_type):
        return commands.schema(url, format)
    else:
        raise HTTPException(
            status_code=415,
            detail=f"Unsupported content type: {content_type}",
        )
""", """    if content_type not in commands.FORMAT_MAP:
        raise HTTPException(415, f"Unsupported content type: {content_type}")

    return commands.schema(url, commands.FORMAT_MAP[content_type])
""")], "recap/cli.py": [("""    struct_obj = commands.schema(url, output_format, strict=False)
    match struct_obj:
        case dict():
            print_json(data=struct_obj)
        case str():
            # Rich would wrap long lines and treat [...] as markup
            typer.echo(struct_obj)
        case _:
            raise ValueError(f"Unexpected schema type: {type(struct_obj)}")
""", """    struct_obj = commands.schema(url=url, format=output_format, strict=False)
    if isinstance(struct_obj, str):
        # Rich would wrap long lines and treat [...] as markup
        typer.echo(message=struct_obj)
    elif isinstance(struct_obj, dict):
        print_json(data=struct_obj)
    else:
        raise ValueError(f"Unexpected schema type: {type(struct_obj)}")
""")]})
ref("R16", ["C27", "C15", "C22"], {"recap/clients/dbapi.py": [("""                SELECT *
                FROM information_schema.columns
                WHERE table_name = {self.param_style}
                    AND table_schema = {self.param_style}
                    AND table_catalog = {self.param_style}
                ORDER BY ordinal_position ASC
            \"\"\",
            (table, schema, catalog),
        )

        names = [name[0].upper() for name in cursor.description]
        return self.converter.to_recap(
            # Make each row be a dict with the column names as keys
            [dict(zip(names, row)) for row in cursor.fetchall()]
        )
""", """                select *
                from information_schema.columns
                where table_catalog = {self.param_style}
                    and table_schema = {self.param_style}
                    and table_name = {self.param_style}
                order by ordinal_position
            \"\"\",
            (catalog, schema, table),
        )
        return self.converter.to_recap(self._rows(cursor))

    @staticmethod
    def _rows(cursor):
        # Make each row be a dict with the column names as keys
        names = [name[0].upper() for name in cursor.description]
        rows = []
        for row in cursor.fetchall():
            rows.append(dict(zip(names, row)))
        return rows
"""), ("""                SELECT table_name
                FROM information_schema.tables
                WHERE table_catalog = {self.param_style}
                    AND table_schema = {self.param_style}
            \"\"\",
            (catalog, schema),
        )
        return [row[0] for row in cursor.fetchall()]
""", """                SELECT table_name
                FROM information_schema.tables
                WHERE table_schema = {self.param_style}
                    AND table_catalog = {self.param_style}
            \"\"\",
            (schema, catalog),
        )
        return [name for (name, *_) in cursor.fetchall()]
"""), ("""        match (catalog, schema):
            case (None, None):
                return self.ls_catalogs()
            case (str(catalog), None):
                return self.ls_schemas(catalog)
            case (str(catalog), str(schema)):
                return self.ls_tables(catalog, schema)
            case _:
                raise ValueError("Invalid arguments")
""", """        if catalog is None and schema is None:
            return self.ls_catalogs()
        if not isinstance(catalog, str):
            raise ValueError("Invalid arguments")
        if schema is None:
            return self.ls_schemas(catalog)
        if not isinstance(schema, str):
            raise ValueError("Invalid arguments")
        return self.ls_tables(catalog, schema)
"""), ("""        paths = url_args.get("paths", [])[::-1]
        catalog = paths.pop() if paths else None
        schema = paths.pop() if paths else None
        table = paths.pop() if paths else None
""", """        catalog, schema, table = (url_args.get("paths", []) + [None] * 3)[:3]
""")], "recap/clients/postgresql.py": [("""                    information_schema.columns.*,
                    pg_attribute.attndims,
                    enums.enum_values
                FROM information_schema.columns

                -- Join to get the array dimensions
                JOIN pg_catalog.pg_namespace
                    ON pg_catalog.pg_namespace.nspname = information_schema.columns.table_schema
                JOIN pg_catalog.pg_class
                    ON pg_catalog.pg_class.relname = information_schema.columns.table_name
                    AND pg_catalog.pg_class.relnamespace = pg_catalog.pg_namespace.oid
                JOIN pg_catalog.pg_attribute
                    ON pg_catalog.pg_attribute.attrelid = pg_catalog.pg_class.oid
                    AND pg_catalog.pg_attribute.attname = information_schema.columns.column_name

                -- Join to get the enum values
                LEFT JOIN pg_catalog.pg_type
                    ON pg_catalog.pg_type.oid = pg_catalog.pg_attribute.atttypid
                    AND pg_catalog.pg_type.typtype = 'e' -- Ensuring it's an enum type
""", """                    c.*,
                    a.attndims,
                    enums.enum_values
                FROM information_schema.columns AS c
                JOIN pg_catalog.pg_namespace n
                    ON c.table_schema = n.nspname
                INNER JOIN pg_catalog.pg_class AS cl
                    ON cl.relnamespace = n.oid
                    AND cl.relname = c.table_name
                JOIN pg_catalog.pg_attribute a
                    ON a.attrelid = cl.oid
                    AND a.attname = c.column_name
                LEFT JOIN pg_catalog.pg_type
                    ON pg_catalog.pg_type.oid = a.atttypid
                    AND pg_catalog.pg_type.typtype = 'e'
"""), ("""                WHERE table_name = {self.param_style}
                    AND table_schema = {self.param_style}
                    AND table_catalog = {self.param_style}
                ORDER BY ordinal_position ASC
            \"\"\",
            (table, schema, catalog),
        )
""", """                WHERE c.table_schema = {self.param_style}
                    AND c.table_name = {self.param_style}
                    AND c.table_catalog = {self.param_style}
                ORDER BY c.ordinal_position ASC
            \"\"\",
            [schema, table, catalog],
        )
""")]})
if __name__ == "__main__":
    main(sys.argv[1:])
