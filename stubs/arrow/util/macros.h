#pragma once
#define ARROW_CONCAT(x,y) x##y
#define ARROW_PREDICT_FALSE(x) (x)
