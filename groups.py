TYPES = ["IR/Context.cpp", "IR/Type.cpp", "IR/Datum.cpp"]


def define(group):
    group("dict", ["dict.cpp"], ["dict", "utils", "shared"])
    group("buffer", ["buffer.cpp"], ["datamgr", "schema", "shared", "utils"], files=TYPES)
    group("types", ["types.cpp", "sort.cpp", "schema.cpp"], ["schema", "shared", "utils"], files=TYPES)
    group("rsowner", ["rsowner.cpp", "digest.cpp"], ["datamgr", "schema", "dict", "shared", "utils"],
          files=TYPES + ["ResultSet/RowSetMemoryOwner.cpp", "ResultSet/QuantileAccessors.cpp"])
    group("resultset", ["resultset.cpp"], ["resultset", "datamgr", "schema", "dict", "ir", "shared", "utils"],
          files=["QueryEngine/DateTruncate.cpp"])
    group("chunk", ["chunk.cpp", "encoder.cpp"], ["datamgr", "schema", "dict", "shared", "utils"], files=TYPES)
    group("registry", ["registry.cpp"], ["resultset", "datamgr", "schema", "dict", "ir", "shared", "utils"],
          files=["QueryEngine/DateTruncate.cpp", "ResultSetRegistry/ColumnarResults.cpp", "ResultSetRegistry/ResultSetMetadata.cpp",
                 "ResultSetRegistry/ResultSetRegistry.cpp", "ResultSetRegistry/ResultSetTableToken.cpp"])
    group("engine", ["engine.cpp"], ["resultset", "datamgr", "schema", "dict", "ir", "shared", "utils", "costmodel", "querybuilder",
                                     "configbuilder", "sqlite"],
          files=["ResultSetRegistry/*.cpp"], engine=True, noinstr=["ResultSet/*"], libs=["-L/usr/lib/llvm-16/lib", "-lLLVM-16", "-lsqlite3", "-lz", "-larmadillo"])
    group("costmodel", ["costmodel.cpp"], ["costmodel", "datamgr", "schema", "shared", "utils"], files=TYPES, libs=["-larmadillo"])
