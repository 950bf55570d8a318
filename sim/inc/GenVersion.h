const char GenVersion_Version[] = "0.4.4-dev";
const char GenVersion_Commit[] = "none";
