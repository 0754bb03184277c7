#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { PC_OK = 0, PC_INVALID_PARAMETER, PC_INVALID_NODE_TYPE, PC_NODE_NOT_FOUND, PC_INVALID_FORMAT, PC_SYSTEM_ERROR } PC_status_t;
typedef struct { PC_status_t status; void* node; } PC_tree_t;
PC_tree_t PC_parse_path(char const* path);
PC_tree_t PC_parse_string(char const* doc);
PC_status_t PC_tree_destroy(PC_tree_t* tree);
PC_tree_t PC_get(PC_tree_t tree, char const* index, ...);
#ifdef __cplusplus
}
#endif
