#pragma once
#include "arrow/api.h"
#include "DataMgr/DataMgr.h"
#include "IR/TargetMetaInfo.h"
#include "ResultSet/ResultSet.h"
class ArrowResultSetConverter { public: ArrowResultSetConverter(const std::shared_ptr<ResultSet>&, const std::vector<std::string>&, int){} std::shared_ptr<arrow::Table> convertToArrowTable(){ return {}; } };
