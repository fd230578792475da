// Stand-in for paraconf: a parsed YAML tree.
#pragma once
struct PC_tree_t
{
    int status;
    void* node; // YAML::Node*
};
PC_tree_t PC_parse_string(char const* document);
PC_tree_t PC_parse_path(char const* path);
void PC_tree_destroy(PC_tree_t* tree);
