# usage: make -f ferret.mk REPO=/repo OUT=dir CC=gcc CFL="..." ; builds $(OUT)/libferret.a out of tree
C   := $(REPO)/c
INC := -I$(C)/include -I$(C)/lib/libstemmer_c/include -I$(C)/lib/bzlib -I$(C)/lib/libstemmer_c/runtime
DEF := -DBZ_NO_STDIO -D_FILE_OFFSET_BITS=64 -DDEBUG -D_POSIX_C_SOURCE=200809L
SRC := $(wildcard $(C)/src/*.c)
BZ  := $(filter-out %bzlibmain.c,$(wildcard $(C)/lib/bzlib/*.c))
SB  := $(wildcard $(C)/lib/libstemmer_c/src_c/*.c) $(wildcard $(C)/lib/libstemmer_c/runtime/*.c) $(C)/lib/libstemmer_c/libstemmer/libstemmer.c
FO  := $(patsubst $(C)/%.c,$(OUT)/%.o,$(SRC))
LO  := $(patsubst $(C)/%.c,$(OUT)/%.o,$(BZ) $(SB))
all: $(OUT)/libferret.a
$(OUT)/libferret.a: $(FO) $(LO)
	@rm -f $@ && ar rcs $@ $^
$(FO): $(OUT)/%.o: $(C)/%.c
	@mkdir -p $(dir $@)
	@$(CC) -std=c99 -w $(INC) $(DEF) -g1 -fno-common $(CFL) -c $< -o $@
$(LO): $(OUT)/%.o: $(C)/%.c
	@mkdir -p $(dir $@)
	@$(CC) -std=c99 -w $(INC) $(DEF) -O1 -fno-common $(LFL) -c $< -o $@
