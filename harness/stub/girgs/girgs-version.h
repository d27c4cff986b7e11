// stand-in for the version header cmake generates
#pragma once
#define GIRGS_PROJECT_NAME "girgs"
#define GIRGS_PROJECT_DESCRIPTION "Generator for Geometric Inhomogeneous Random Graphs"
#define GIRGS_AUTHOR_ORGANIZATION "org"
#define GIRGS_AUTHOR_DOMAIN "domain"
#define GIRGS_AUTHOR_MAINTAINER "maintainer"
#define GIRGS_VERSION_MAJOR "1"
#define GIRGS_VERSION_MINOR "0"
#define GIRGS_VERSION_PATCH "0"
#define GIRGS_VERSION_REVISION "0"
#define GIRGS_VERSION "1.0.0"
#define GIRGS_NAME_VERSION "girgs v1.0.0 (0)"
