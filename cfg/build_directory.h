#define RRR_BUILD_DIR "/nonexistent"
