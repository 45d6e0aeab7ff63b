#pragma once
#include "blocked_range.h"
#include "enumerable_thread_specific.h"
#include "parallel_for.h"
#include "parallel_for_each.h"
#include "parallel_invoke.h"
#include "parallel_reduce.h"
#include "parallel_sort.h"
#include "task_arena.h"
#include "task_group.h"
