L="src/utils/utils_log.c"; C="src/utils/utils_common.c"
M("lg-static-buf","C25",L,"    char buffer[LOG_MAX];","    static char buffer[LOG_MAX];")
M("lg-static-header","C25",L,"    char header[LOG_HEADER];","    static char header[LOG_HEADER];")
M("lg-static-line","C25",L,"    char logLine[LOG_MAX + LOG_HEADER * 2];","    static char logLine[LOG_MAX + LOG_HEADER * 2];")
M("lg-two-puts","C25",L,'''             level_to_str(level), buffer, postfix);
    FILE *out = loggerConfig.output ? loggerConfig.output : stderr;''','''             level_to_str(level), buffer, "");
    FILE *out = loggerConfig.output ? loggerConfig.output : stderr;
    if (*postfix) { logLine[strlen(logLine)-1]=0; fputs(logLine,out); snprintf(logLine,sizeof(logLine),"%s\\n",postfix);}''')
M("lg-two-puts2","C25",L,'''    snprintf(logLine, sizeof(logLine), "[%s%-5s UMF] %s%s\\n", header,
             level_to_str(level), buffer, postfix);
    FILE *out = loggerConfig.output ? loggerConfig.output : stderr;
    fputs(logLine, out);''','''    snprintf(logLine, sizeof(logLine), "[%s%-5s UMF] ", header,
             level_to_str(level));
    FILE *out = loggerConfig.output ? loggerConfig.output : stderr;
    fputs(logLine, out);
    snprintf(logLine, sizeof(logLine), "%s%s\\n", buffer, postfix);
    fputs(logLine, out);''')
M("lg-level-le","C25",L,"if (level < loggerConfig.level)","if (level <= loggerConfig.level && level != LOG_FATAL)")
M("lg-flush-gt","C25",L,"if (level >= loggerConfig.flushLevel)","if (level > loggerConfig.flushLevel)")
M("lg-nul","C25",L,'''                buffer[LOG_MAX - 1] =
                    '\\0';''','''                buffer[LOG_MAX - 2] =
                    '\\0';''')
M("lg-nonul","C25",L,'''            if (b_size <= 0) {
                buffer''','''            if (b_size < 0) {
                buffer''')
M("lg-perr-room","C25",L,"        if (b_size > 2) {","        if (b_size > 0) {")
M("lg-trunc","C25",L,'''    if (b_size <= 0) {
        //TODO''','''    if (b_size < 0) {
        //TODO''')
M("lg-line-short","C25",L,"char logLine[LOG_MAX + LOG_HEADER * 2];","char logLine[LOG_MAX + 40];")
M("lg-path-255","C25",L,"char file[MAX_FILE_PATH + 1];","char file[MAX_FILE_PATH];")
M("lg-noreuse","C25",L,"if (openFile && strcmp(file, logFileName) == 0)","if (0)")
M("lg-noclose","C25",L,"if (openFile && loggerConfig.output != openFile) {","if (0) {")
M("lg-name","C25",L,"        memcpy(logFileName, file, len + 1);","        if (!logFileName[0]) memcpy(logFileName, file, len + 1);")
M("lg-defaults","C25",L,"    loggerConfig = loggerDefaults;\n","    loggerConfig.output = NULL;\n")
M("lg-argend","C25",L,'strstr(arg, ";")','strrchr(arg, \';\')')
M("lg-warn","C25",L,'"flush:warning"','"flush:warn"')
M("lg-parse-end","C25",C,"if (*endFound == '\\0' || *endFound == ';')","if (*endFound == '\\0' || *endFound == ';' || *endFound == ',')")
M("lg-parse-start","C25",C,"if (found != var && *(found - 1) != ';')","if (found != var && *(found - 1) != ';' && *(found-1) != ',')")
M("lg-pid","C25",L,'utils_parse_var(envVar, "pid:no", NULL)','0')
M("lg-fatal","C25",L,"if (!loggerConfig.output && level != LOG_FATAL)","if (!loggerConfig.output)")
M("lg-append","C25",L,'fopen(file, "a")','fopen(file, "w")')
M("lg-errno","C25",L,"strerror_r(saveno,","strerror_r(errno,")
