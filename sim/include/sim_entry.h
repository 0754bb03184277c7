#pragma once
extern "C" int heracles_main(int, char**);
