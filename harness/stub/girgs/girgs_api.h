// stand-in for the export header cmake generates; the harness compiles the library sources itself
#pragma once
#define GIRGS_API
