/* Runs Lua chunks that arrive line by line on fd 3 and answers each with one line on fd 4:
 * "ok <what the chunk returned>" or "er <message>". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <lua5.4/lua.h>
#include <lua5.4/lauxlib.h>
#include <lua5.4/lualib.h>

int luaopen_dax(lua_State *L);

int main(void) {
    static char line[1 << 20];
    FILE *in = fdopen(3, "r"), *out = fdopen(4, "w");
    lua_State *L = luaL_newstate();
    luaL_openlibs(L);
    luaL_requiref(L, "dax", luaopen_dax, 1);
    lua_pop(L, 1);
    while(fgets(line, sizeof line, in)) {
        size_t n = strlen(line), i;
        if(n && line[n - 1] == '\n') line[--n] = 0;
        if(!strcmp(line, "flush")) { fflush(out); continue; }
        int top = lua_gettop(L);
        int rc = luaL_loadbuffer(L, line, n, "op") || lua_pcall(L, 0, 1, 0);
        const char *s = lua_tolstring(L, -1, &n);
        fputs(rc ? "er " : "ok ", out);
        for(i = 0; s && i < n; i++) fputc(s[i] == '\n' ? ' ' : s[i], out);
        fputc('\n', out);
        fflush(out);
        lua_settop(L, top);
    }
    return 0;
}
