// Between the model's values and the library's operands (exec.cc).
#pragma once
#include "expr/operand.h"
#include "model.h"
dingodb::expr::Tuple *conv_tuple(const model::Row &r);
model::Row conv_row(const dingodb::expr::Tuple &t);
