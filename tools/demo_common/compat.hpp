#pragma once
#define HAVE_CSTDDEF 1
#define SetBoolValue(name, value) SetStringValue((name), (value) ? "yes" : "no")
#ifndef GRAZER_VERSION
#define GRAZER_VERSION demo
#endif
