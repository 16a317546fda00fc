# make -f world.mk HERE=... OUT=... REPO=...
CC = gcc
SAN = -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer
GLIB := $(shell pkg-config --cflags glib-2.0 gmodule-2.0)
CPPFLAGS = -DHAVE_CONFIG_H -DDEFAULT_CONFIG_DIR=\"/nonexistent\" -DHELPFILE=\"/nonexistent\" -DMODULESDIR=\"/nonexistent\" \
	-DSTRICT_MEMORY_ALLOCS= -DSYSCONFDIR=\"/nonexistent\" -DDEFAULT_CONFIG_FILE=\"/nonexistent\" \
	-DSSL_CREDENTIALS_DIR=\"/nonexistent\" -DPIDFILE=\"/dev/null/pid\" \
	-I$(HERE) -I$(REPO) -I$(REPO)/libirc -I$(REPO)/src $(GLIB) -isystem /usr/include/mit-krb5 -I/usr/include/p11-kit-1
CFLAGS = -g -O1 -std=gnu89 -w $(SAN)
LIBS = -lgcrypt -lreadline -Wl,--export-dynamic -lgmodule-2.0 -pthread -lglib-2.0 -L/usr/lib/x86_64-linux-gnu/mit-krb5 -lgssapi_krb5 -lgnutls -ldl

# every source of the library and of the proxy, minus the programs' entry points
LIBSRC = $(filter-out $(REPO)/libirc/url_test.c,$(wildcard $(REPO)/libirc/*.c))
PROXYSRC = $(filter-out $(REPO)/src/main.c $(REPO)/src/admin-cmd.c,$(wildcard $(REPO)/src/*.c))
OBJS = $(patsubst $(REPO)/%.c,$(OUT)/obj/%.o,$(LIBSRC) $(PROXYSRC))
DAEMONOBJS = $(patsubst $(REPO)/%.c,$(OUT)/obj/%.o,$(wildcard $(REPO)/daemon/*.c))

all: $(OUT)/world $(OUT)/dworld

$(OUT)/obj/%.o: $(REPO)/%.c
	@mkdir -p $(dir $@)
	$(CC) $(CPPFLAGS) $(CFLAGS) -MMD -MP -c $< -o $@

$(OUT)/obj/daemon/main.o: CPPFLAGS += -Dmain=ctrlproxyd_main

$(OUT)/obj/h_%.o: $(HERE)/%.c
	@mkdir -p $(dir $@)
	$(CC) $(CPPFLAGS) $(CFLAGS) -std=gnu11 -MMD -MP -c $< -o $@

# the same driver around the front end for several users
$(OUT)/obj/h_dworld.o: $(HERE)/world.c
	@mkdir -p $(dir $@)
	$(CC) $(CPPFLAGS) -DDWORLD $(CFLAGS) -std=gnu11 -MMD -MP -c $< -o $@

$(OUT)/dworld: $(OUT)/obj/h_dworld.o $(OUT)/obj/h_os.o $(OBJS) $(DAEMONOBJS)
	$(CC) $(SAN) -o $@ $^ $(LIBS)

$(OUT)/world: $(OUT)/obj/h_world.o $(OUT)/obj/h_os.o $(OBJS)
	$(CC) $(SAN) -o $@ $^ $(LIBS)

-include $(shell find $(OUT)/obj -name '*.d' 2>/dev/null)
