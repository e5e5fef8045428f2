fn main() {
    hibou_label::ui::hibou_cli::hibou_cli();
}
